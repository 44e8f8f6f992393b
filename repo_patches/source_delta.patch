From fae5aeb3afc97f58cdf3de228db03cb0ae0c7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 001/100] fix: IntBinaryMap.insertWith/insertWithi must store
 the combined value

---
 smlnj-lib/Util/int-binary-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-binary-map.sml b/smlnj-lib/Util/int-binary-map.sml
index d718218..2525077 100644
--- a/smlnj-lib/Util/int-binary-map.sml
+++ b/smlnj-lib/Util/int-binary-map.sml
@@ -178,7 +178,7 @@ structure IntBinaryMap :> ORD_MAP where type Key.ord_key = Int.int =
 		else let
 		  val v' = comb(x, value, v)
 		  in
-		    T{key=x,value=v,left=left,right=right,cnt=cnt}
+		    T{key=x,value=v',left=left,right=right,cnt=cnt}
 		  end
 	  in
 	    insert m
-- 
2.43.0


From b8701d338b5f0ddd88676035d1c5ec5f80cdffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 002/100] fix: list-based maps: all/alli are true on the empty
 map

---
 smlnj-lib/Util/int-list-map.sml | 4 ++--
 smlnj-lib/Util/list-map-fn.sml  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 2ce7928..403e3a2 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -309,13 +309,13 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
diff --git a/smlnj-lib/Util/list-map-fn.sml b/smlnj-lib/Util/list-map-fn.sml
index 62de987..b2540d2 100644
--- a/smlnj-lib/Util/list-map-fn.sml
+++ b/smlnj-lib/Util/list-map-fn.sml
@@ -316,13 +316,13 @@ functor ListMapFn (K : ORD_KEY) :> ORD_MAP where type Key.ord_key = K.ord_key =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
-- 
2.43.0


From b4fe0beb8a3580b9c14411497544a5d1ecd4f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 003/100] fix: IntListMap.findAndRemove returns NONE for a key
 past the last one

---
 smlnj-lib/Util/int-list-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 403e3a2..da71dc5 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -103,7 +103,7 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
 	  end
 
     fun findAndRemove (l, key) = let
-	  fun f (_, []) = raise LibBase.NotFound
+	  fun f (_, []) = NONE
 	    | f (prefix, (elem as (key', x)) :: r) =
                   if (key' < key) then f(elem :: prefix, r)
                   else if (key' = key) then SOME(List.revAppend(prefix, r), x)
-- 
2.43.0


From 432ced8c5ab8d9b51bc260e8293738734715b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 004/100] fix: SplaySetFn.exists/all visit the elements in key
 order, as ORD_SET documents

---
 smlnj-lib/Util/splay-set-fn.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smlnj-lib/Util/splay-set-fn.sml b/smlnj-lib/Util/splay-set-fn.sml
index c85386c..05723d8 100644
--- a/smlnj-lib/Util/splay-set-fn.sml
+++ b/smlnj-lib/Util/splay-set-fn.sml
@@ -409,7 +409,7 @@ functor SplaySetFn (K : ORD_KEY) :> ORD_SET where type Key.ord_key = K.ord_key =
     fun exists p EMPTY = false
       | exists p (SET{root,...}) = let
           fun ex SplayNil = false
-            | ex (SplayObj{value=v, left=l, right=r}) = p v orelse ex l orelse ex r
+            | ex (SplayObj{value=v, left=l, right=r}) = ex l orelse p v orelse ex r
           in
             ex (!root)
           end
@@ -417,7 +417,7 @@ functor SplaySetFn (K : ORD_KEY) :> ORD_SET where type Key.ord_key = K.ord_key =
     fun all p EMPTY = true
       | all p (SET{root,...}) = let
           fun all' SplayNil = true
-            | all' (SplayObj{value=v, left=l, right=r}) = p v andalso all' l andalso all' r
+            | all' (SplayObj{value=v, left=l, right=r}) = all' l andalso p v andalso all' r
           in
             all' (!root)
           end
-- 
2.43.0


From 40b93596c4440b8e10b061448916f43fc0458230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:43 +0000
Subject: [PATCH 005/100] hooks: optional runtime monitors, guarded by
 SMLNJ_VERIF

---
 base/runtime/gc/call-gc.c     |  16 +++++
 base/runtime/gc/ml-objects.c  |   3 +
 base/runtime/gc/verif-hooks.c | 131 ++++++++++++++++++++++++++++++++++
 base/runtime/include/gc.h     |   9 +++
 base/runtime/kernel/main.c    |   4 ++
 base/runtime/kernel/run-ml.c  |   8 +++
 6 files changed, 171 insertions(+)
 create mode 100644 base/runtime/gc/verif-hooks.c

diff --git a/base/runtime/gc/call-gc.c b/base/runtime/gc/call-gc.c
index 7f279ab..03905cc 100644
--- a/base/runtime/gc/call-gc.c
+++ b/base/runtime/gc/call-gc.c
@@ -175,6 +175,10 @@ void InvokeGC (ml_state_t *msp, int level)
 
     STOP_GC_PAUSE();
 
+#ifdef SMLNJ_VERIF
+    Verif_GCDone (msp, level);
+#endif
+
   /* conditionally signal a GC signal */
     GCSignal (msp->ml_vproc, level);
 
@@ -334,6 +338,10 @@ void InvokeGCWithRoots (ml_state_t *msp, int level, ...)
 
     STOP_GC_PAUSE();
 
+#ifdef SMLNJ_VERIF
+    Verif_GCDone (msp, level);
+#endif
+
   /* conditionally signal a GC signal */
     GCSignal (msp->ml_vproc, level);
 
@@ -349,6 +357,10 @@ void InvokeGCWithRoots (ml_state_t *msp, int level, ...)
  */
 bool_t NeedGC (ml_state_t *msp, Word_t nbytes)
 {
+#ifdef SMLNJ_VERIF
+    if (Verif_ForceGC (msp, nbytes))
+	return TRUE;
+#endif
 #if (defined(MP_SUPPORT) && defined(COMMENT_MP_GCPOLL))
     if ((((Addr_t)(msp->ml_allocPtr)+nbytes) >= (Addr_t)(msp->ml_limitPtr))
     || (INT_MLtoC(PollEvent) != 0))
@@ -387,3 +399,7 @@ void ResetPollLimit (ml_state_t *msp)
 
 } /* end ResetPollLimit */
 #endif /* SOFT_POLL */
+
+#ifdef SMLNJ_VERIF
+#include "verif-hooks.c"
+#endif
diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..d90f373 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -25,6 +25,9 @@
 #ifdef MP_SUPPORT
 #define IFGC(ap, szb)   \
         while ((! isACTIVE(ap)) || (AVAIL_SPACE(ap) <= (szb)))
+#elif defined(SMLNJ_VERIF)
+#define IFGC(ap, szb)   \
+        if ((! isACTIVE(ap)) || (AVAIL_SPACE(ap) <= (szb)) || Verif_ForceGen1GC())
 #else
 #define IFGC(ap, szb)   \
         if ((! isACTIVE(ap)) || (AVAIL_SPACE(ap) <= (szb)))
diff --git a/base/runtime/gc/verif-hooks.c b/base/runtime/gc/verif-hooks.c
new file mode 100644
index 0000000..9fe9749
--- /dev/null
+++ b/base/runtime/gc/verif-hooks.c
@@ -0,0 +1,131 @@
+/*! \file verif-hooks.c
+ *
+ * Monitoring hooks; this file is empty unless SMLNJ_VERIF is defined.
+ *
+ * With SMLNJ_VERIF the runtime collects at (almost) every point where it is
+ * allowed to collect while a C function runs, overwrites the nursery after every
+ * collection, and checks that no C function allocates more nursery space than it
+ * was granted.  Environment variables:
+ *
+ *   VERIF_GC_PERIOD	force every n'th possible collection (default 1; 0 = never)
+ *   VERIF_LOG		file to append the counters to when the process exits
+ */
+
+#ifdef SMLNJ_VERIF
+
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
+#include <unistd.h>
+#include "ml-base.h"
+#include "ml-limits.h"
+#include "ml-values.h"
+#include "ml-state.h"
+#include "gc.h"
+#include "heap.h"
+
+PVT long	Period = -1;
+PVT long	NumPoints = 0;		/* possible collection points seen */
+PVT long	NumForced = 0;		/* ... where a collection was forced */
+PVT long	NumGCs = 0;
+PVT long	NumCalls = 0;		/* C calls */
+PVT Addr_t	MaxUsed = 0;		/* max. nursery bytes used by a C call */
+PVT Addr_t	Mark = 0;		/* allocation pointer at the last grant */
+PVT Addr_t	Granted = 0;		/* bytes granted at Mark */
+PVT bool_t	InCall = FALSE;
+PVT const char	*CurFun = "";
+
+#define MAX_NAMES	1024
+PVT struct { const char *name; long cnt; } Calls[MAX_NAMES];
+
+PVT bool_t Force (void)
+{
+    if (Period < 0) {
+	char *s = getenv("VERIF_GC_PERIOD");
+	Period = (s == NULL) ? 1 : atol(s);
+    }
+    NumPoints++;
+    if ((Period > 0) && (NumPoints % Period == 0)) {
+	NumForced++;
+	return TRUE;
+    }
+    return FALSE;
+}
+
+/* check the nursery use since the last grant */
+PVT void CheckUse (ml_state_t *msp)
+{
+    Addr_t used = (Addr_t)(msp->ml_allocPtr) - Mark;
+
+    if (! InCall)
+	return;
+    if (((Addr_t)(msp->ml_allocPtr) >= Mark) && (used > MaxUsed))
+	MaxUsed = used;
+    if (((Addr_t)(msp->ml_allocPtr) < Mark) || (used > Granted + HEAP_BUF_SZB))
+	Die ("VERIF: C function %s used %ld bytes of nursery space, but was granted %ld",
+	    CurFun, (long)used, (long)Granted);
+}
+
+bool_t Verif_ForceGC (ml_state_t *msp, Word_t nbytes)
+{
+    CheckUse (msp);
+    Mark = (Addr_t)(msp->ml_allocPtr);
+    Granted = nbytes;
+    return Force();
+}
+
+bool_t Verif_ForceGen1GC (void)
+{
+    return Force();
+}
+
+/* called after a collection, when the nursery is empty */
+void Verif_GCDone (ml_state_t *msp, int level)
+{
+    heap_t *heap = msp->ml_heap;
+
+    NumGCs++;
+    memset (heap->allocBase, 0xA8, heap->allocSzB);
+    Mark = (Addr_t)(heap->allocBase);
+    Granted = heap->allocSzB - HEAP_BUF_SZB;
+}
+
+void Verif_CallBegin (ml_state_t *msp, const char *name)
+{
+    Addr_t h = (((Addr_t)name) >> 4) % MAX_NAMES;
+
+    while ((Calls[h].name != NULL) && (Calls[h].name != name))
+	h = (h + 1) % MAX_NAMES;
+    Calls[h].name = name;
+    Calls[h].cnt++;
+    NumCalls++;
+    InCall = TRUE;
+    CurFun = name;
+    Mark = (Addr_t)(msp->ml_allocPtr);
+    Granted = 8*ONE_K;	/* see REQ_CALLC in run-ml.c */
+}
+
+void Verif_CallEnd (ml_state_t *msp, const char *name)
+{
+    CheckUse (msp);
+    InCall = FALSE;
+}
+
+void Verif_Report (void)
+{
+    char	*s = getenv("VERIF_LOG");
+    FILE	*f;
+    int		i;
+
+    if ((s == NULL) || ((f = fopen(s, "a")) == NULL))
+	return;
+    fprintf (f, "pid %d points %ld forced %ld gcs %ld calls %ld maxused %ld\n",
+	(int)getpid(), NumPoints, NumForced, NumGCs, NumCalls, (long)MaxUsed);
+    for (i = 0;  i < MAX_NAMES;  i++) {
+	if (Calls[i].name != NULL)
+	    fprintf (f, "call %s %ld\n", Calls[i].name, Calls[i].cnt);
+    }
+    fclose (f);
+}
+
+#endif /* SMLNJ_VERIF */
diff --git a/base/runtime/include/gc.h b/base/runtime/include/gc.h
index 7cb168b..52c0e90 100644
--- a/base/runtime/include/gc.h
+++ b/base/runtime/include/gc.h
@@ -31,6 +31,15 @@ extern void FreeHeap (heap_t *heap);
 extern void InvokeGC (ml_state_t *msp, int level);
 extern void InvokeGCWithRoots (ml_state_t *msp, int level, ...);
 extern bool_t NeedGC (ml_state_t *msp, Word_t nbytes);
+#ifdef SMLNJ_VERIF
+/* monitoring hooks (see gc/verif-hooks.c) */
+extern bool_t Verif_ForceGC (ml_state_t *msp, Word_t nbytes);
+extern bool_t Verif_ForceGen1GC (void);
+extern void Verif_GCDone (ml_state_t *msp, int level);
+extern void Verif_CallBegin (ml_state_t *msp, const char *name);
+extern void Verif_CallEnd (ml_state_t *msp, const char *name);
+extern void Verif_Report (void);
+#endif
 
 extern int GetObjGen (ml_val_t obj);
 extern ml_val_t RecordConcat (ml_state_t *msp, ml_val_t r1, ml_val_t r2);
diff --git a/base/runtime/kernel/main.c b/base/runtime/kernel/main.c
index 541ff17..5e8078c 100644
--- a/base/runtime/kernel/main.c
+++ b/base/runtime/kernel/main.c
@@ -178,6 +178,10 @@ PVT void ParseOptions (int argc, char **argv, heap_params_t **heapParams)
  */
 void Exit (int code)
 {
+#ifdef SMLNJ_VERIF
+    extern void Verif_Report (void);
+    Verif_Report ();
+#endif
 #if COUNT_REG_MASKS
     DumpMasks();
 #endif
diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index d8488f2..33a6a4c 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -225,7 +225,15 @@ SayDebug ("run-ml: poll event\n");
 #  endif
 #endif
                     arg = REC_SEL(msp->ml_arg, 1);
+#ifdef SMLNJ_VERIF
+                    cfunc_binding_t *binding
+                        = (cfunc_binding_t *)REC_SELPTR(Word_t, msp->ml_arg, 0);
+                    Verif_CallBegin (msp, binding->name);
+#endif
                     msp->ml_arg = (*f)(msp, arg);
+#ifdef SMLNJ_VERIF
+                    Verif_CallEnd (msp, binding->name);
+#endif
                 } break;
 
               case REQ_ALLOC_STRING:
-- 
2.43.0


From db94014d80ccd44526fc2d8fc1d0ff7b2d94564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 006/100] fix: GC-invocation code may be shared only by
 functions with equally many roots

ListPair.all ignores the tail of the longer list, so a function with a live
floating-point (or untagged) argument could share the GC call of one without,
and its argument was lost in a collection.
---
 base/compiler/CodeGen/cpscompile/invokegc.sml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/compiler/CodeGen/cpscompile/invokegc.sml b/base/compiler/CodeGen/cpscompile/invokegc.sml
index 699a7a6..abc979b 100644
--- a/base/compiler/CodeGen/cpscompile/invokegc.sml
+++ b/base/compiler/CodeGen/cpscompile/invokegc.sml
@@ -712,10 +712,10 @@ functor InvokeGC (
 	    | eqF (T.FLOAD(_,ea1,_), T.FLOAD(_,ea2,_)) = eqEA(ea1, ea2)
 	    | eqF _ = false
 	  in
-	    ListPair.all eqR (b1, b2)
+	    ListPair.allEq eqR (b1, b2)
 	      andalso eqR(ret1, ret2)
-	      andalso ListPair.all eqR (i1, i2)
-	      andalso ListPair.all eqF (f1, f2)
+	      andalso ListPair.allEq eqR (i1, i2)
+	      andalso ListPair.allEq eqF (f1, f2)
 	  end
       | sameCallingConvention _ = false
 
-- 
2.43.0


From 5426f186a8a4b7727847203a74e45e648cf9d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 007/100] fix: TrimHeap keeps arena sizes a multiple of the
 BIBOP page size

---
 base/runtime/gc/major-gc.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/base/runtime/gc/major-gc.c b/base/runtime/gc/major-gc.c
index e8abca0..1beb04d 100644
--- a/base/runtime/gc/major-gc.c
+++ b/base/runtime/gc/major-gc.c
@@ -1012,15 +1012,14 @@ PVT void TrimHeap (heap_t *heap, int maxCollectedGen)
 		    : heap->gen[i-1]->arena[j]->tospSizeB;
 		minSzB += (USED_SPACE(ap) + ap->reqSizeB);
 		if (minSzB < ap->maxSizeB)
-		    newSzB = ap->maxSizeB;
-		else {
-		    newSzB = RND_MEMOBJ_SZB(minSzB);
-		  /* the calculation of minSz here may return something bigger
-		   * that what flip.c computed!
-		   */
-		    if (newSzB > ap->tospSizeB)
-			newSzB = ap->tospSizeB;
-		}
+		    minSzB = ap->maxSizeB;
+	      /* arena sizes must be a multiple of the BIBOP page size */
+		newSzB = RND_MEMOBJ_SZB(minSzB);
+	      /* the calculation of minSz here may return something bigger
+	       * that what flip.c computed!
+	       */
+		if (newSzB > ap->tospSizeB)
+		    newSzB = ap->tospSizeB;
 		ap->tospSizeB = newSzB;
 		ap->tospTop = (ml_val_t *)((Addr_t)ap->tospBase + ap->tospSizeB);
 	    }
-- 
2.43.0


From 7786c4841b5fd48b7945915a8c77d1adb20f60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 008/100] fix: ML_CStringList reserves space per string and
 keeps the partial list rooted

A command line (or environment) larger than the allocation space overran it;
the command name was not a root while the argument list was built.
---
 base/runtime/gc/import-heap.c |  6 +++---
 base/runtime/gc/ml-objects.c  | 40 +++++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 4b8720c..56d5d17 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -177,7 +177,7 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
       /* GCMessages = TRUE; */
     }
     else {  /* EXPORT_FN_IMAGE */
-        ml_val_t        funct, cmdName, args;
+        ml_val_t        funct, args;
       /* restore the signal handler */
         ASSIGN(MLSignalHandler, image.sigHandler);
       /* read the ML heap */
@@ -192,9 +192,9 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
         msp->ml_pc              =
         msp->ml_linkReg         = GET_CODE_ADDR(funct);
       /* setup the arguments to the imported function */
-        cmdName = ML_CString(msp, MLCmdName);
+        msp->ml_arg = ML_CString(msp, MLCmdName);  /* keep it in a root */
         args = ML_CStringList (msp, CmdLineArgs);
-        REC_ALLOC2(msp, msp->ml_arg, cmdName, args);
+        REC_ALLOC2(msp, msp->ml_arg, msp->ml_arg, args);
 /*
 SayDebug("arg = %#x : [%#x, %#x]\n", msp->ml_arg, REC_SEL(msp->ml_arg, 0), REC_SEL(msp->ml_arg, 1));
 */
diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index d90f373..c1ed70c 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -76,33 +76,41 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
 
 /* ML_CStringList:
  *
- * Given a NIL terminated array of char *, build a list of ML strings.
+ * Given a NIL terminated array of char *, build a list of ML strings.  This may
+ * invoke the garbage collector, so the caller must not hold unrooted values.
  */
 ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
-    int         i, j;
+    int         i;
     ml_val_t    p, s;
     Word_t      nbytes;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
-    /* Make sure we have enough space to allocate the list */
-    nbytes = i * (3 * WORD_SZB);
-    for (j = 0;  j < i;  j++) {
-        size_t len = strlen(strs[j]);
-        Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
-        }
-    }
-    if (NeedGC (msp, nbytes)) {
-        InvokeGC (msp, 0);
-    }
-
     p = LIST_nil;
     while (i-- > 0) {
-        s = ML_CString(msp, strs[i]);
+        Word_t nwords = BYTES_TO_WORDS(strlen(strs[i]) + 1);
+        bool_t isSmall = (nwords <= SMALL_OBJ_SZW);
+
+      /* make sure that there is space for the list cell, the string header,
+       * and the string data (when it is allocated in the allocation space)
+       */
+        nbytes = WORD_SZB * (3 + 3 + (isSmall ? nwords + 1 : 3));
+        if (NeedGC (msp, nbytes)) {
+            InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+        }
+
+        if (isSmall) {
+            s = ML_CString(msp, strs[i]);
+        }
+        else {
+          /* allocating a big string may collect, so make p reachable from a root */
+            REC_ALLOC2(msp, msp->ml_arg, msp->ml_arg, p);
+            s = ML_CString(msp, strs[i]);
+            p = REC_SEL(msp->ml_arg, 1);
+            msp->ml_arg = REC_SEL(msp->ml_arg, 0);
+        }
         LIST_cons(msp, p, s, p);
     }
 
-- 
2.43.0


From a20dbc6eee0027853daff5f18a8834165c335c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:02 +0000
Subject: [PATCH 009/100] fix: length and tag swapped in descriptors of the
 flock, termios and struct tm records

The collector took these objects for empty ones and lost their fields.
---
 base/runtime/c-libs/posix-io/fcntl_l.c      | 2 +-
 base/runtime/c-libs/posix-tty/tcgetattr.c   | 2 +-
 base/runtime/c-libs/smlnj-date/unix-date.c  | 2 +-
 base/runtime/c-libs/smlnj-date/win32-date.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..8567513 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC (5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
diff --git a/base/runtime/c-libs/smlnj-date/win32-date.c b/base/runtime/c-libs/smlnj-date/win32-date.c
index b6edb30..f545a64 100644
--- a/base/runtime/c-libs/smlnj-date/win32-date.c
+++ b/base/runtime/c-libs/smlnj-date/win32-date.c
@@ -68,7 +68,7 @@ int _ml_year_day (const SYSTEMTIME *st)
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const SYSTEMTIME *st, BOOL isDST)
 {
   /* The SYSTEMTIME struct has everything that we need except the day of the year */
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(st->wSecond));
     ML_AllocWrite(msp, 2, INT_CtoML(st->wMinute));
     ML_AllocWrite(msp, 3, INT_CtoML(st->wHour));
-- 
2.43.0


From 50f3dd1abb7b14330e57b760c19330a42862c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 010/100] fix: lseek, localtime and uname return after raising
 SysErr

---
 base/runtime/c-libs/posix-io/lseek.c       | 2 +-
 base/runtime/c-libs/posix-procenv/uname.c  | 2 +-
 base/runtime/c-libs/smlnj-date/localtime.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
diff --git a/base/runtime/c-libs/posix-procenv/uname.c b/base/runtime/c-libs/posix-procenv/uname.c
index d7a3370..acb7618 100644
--- a/base/runtime/c-libs/posix-procenv/uname.c
+++ b/base/runtime/c-libs/posix-procenv/uname.c
@@ -25,7 +25,7 @@ ml_val_t _ml_P_ProcEnv_uname (ml_state_t *msp, ml_val_t arg)
     sts = uname (&name);
 
     if (sts == -1)
-	RAISE_SYSERR(msp, sts);
+	return RAISE_SYSERR(msp, sts);
 
 /** NOTE: we should do something about possible GC!!! **/
 
diff --git a/base/runtime/c-libs/smlnj-date/localtime.c b/base/runtime/c-libs/smlnj-date/localtime.c
index cbf0e42..0f84991 100644
--- a/base/runtime/c-libs/smlnj-date/localtime.c
+++ b/base/runtime/c-libs/smlnj-date/localtime.c
@@ -25,7 +25,7 @@ ml_val_t _ml_Date_localtime (ml_state_t *msp, ml_val_t arg)
     struct tm	tmbuf;
 
     if (localtime_r (&t, &tmbuf) == NULL) {
-	RAISE_SYSERR(msp,0);
+	return RAISE_SYSERR(msp,0);
     }
     else {
 	return _ml_alloc_tm (msp, &tmbuf);
-- 
2.43.0


From 9a49bcc7400c45cec0470df9754a8f756bef371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:15 +0000
Subject: [PATCH 011/100] fix: Posix.IO.getfl reads the file status flags, not
 the descriptor flags

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From 26fc2345a3a06803f24c6f2f08352879232c417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:25 +0000
Subject: [PATCH 012/100] fix: database lookups build their string lists before
 other, unrooted results

---
 base/runtime/c-libs/posix-sysdb/getgrgid.c         | 3 ++-
 base/runtime/c-libs/posix-sysdb/getgrnam.c         | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbyname.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbynum.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getrpcbyname.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getrpcbynum.c    | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkhostent.c | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mknetent.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkservent.c | 3 ++-
 9 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/posix-sysdb/getgrgid.c b/base/runtime/c-libs/posix-sysdb/getgrgid.c
index 6eaa30f..64f846e 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrgid.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrgid.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrgid (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* allocate the list first, since that may cause a GC */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (SysWord_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/posix-sysdb/getgrnam.c b/base/runtime/c-libs/posix-sysdb/getgrnam.c
index 22a35bc..89c91f6 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrnam.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrnam.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrnam (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+  /* allocate the list first, since that may cause a GC */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (Word_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
index 60696b8..9045fca 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbyname (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
index 98dff50..c32db06 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbynum (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c b/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
index 41710ed..c918ab3 100644
--- a/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getrpcbyname.c
@@ -28,8 +28,9 @@ ml_val_t _ml_NetDB_getrpcbyname (ml_state_t *msp, ml_val_t arg)
     if (rentry == NIL(struct rpcent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, rentry->r_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList (msp, rentry->r_aliases);
+	name = ML_CString (msp, rentry->r_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(rentry->r_number));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c b/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
index f48c4bc..c63bff4 100644
--- a/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getrpcbynum.c
@@ -31,8 +31,9 @@ ml_val_t _ml_NetDB_getrpcbynum (ml_state_t *msp, ml_val_t arg)
     if (rentry == NIL(struct rpcent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, rentry->r_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList (msp, rentry->r_aliases);
+	name = ML_CString (msp, rentry->r_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(rentry->r_number));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
index 4fab8f0..8339862 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
@@ -29,8 +29,9 @@ ml_val_t _util_NetDB_mkhostent (ml_state_t *msp, struct hostent *hentry)
 	ml_val_t	name, aliases, af, addr, addrs, res;
 	int		nAddrs, i;
 
-	name = ML_CString(msp, hentry->h_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList(msp, hentry->h_aliases);
+	name = ML_CString(msp, hentry->h_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	for (nAddrs = 0;  hentry->h_addr_list[nAddrs] != NIL(char *);  nAddrs++)
 	    continue;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
index 18f0d5a..c8f52e2 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
@@ -25,8 +25,9 @@ ml_val_t _util_NetDB_mknetent (ml_state_t *msp, struct netent *nentry)
       /* build the return result */
 	ml_val_t	name, aliases, af, net, res;
 
-	name = ML_CString(msp, nentry->n_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList(msp, nentry->n_aliases);
+	name = ML_CString(msp, nentry->n_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, nentry->n_addrtype);
 	WORD_ALLOC(msp, net, (Word_t)(nentry->n_net));
 	REC_ALLOC4 (msp, res, name, aliases, af, net);
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
index 1a659e5..da653ca 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
@@ -26,8 +26,9 @@ ml_val_t _util_NetDB_mkservent (ml_state_t *msp, struct servent *sentry)
       /* build the return result */
 	ml_val_t	name, aliases, port, proto, res;
 
-	name = ML_CString(msp, sentry->s_name);
+      /* allocate the list first, since that may cause a GC */
 	aliases = ML_CStringList(msp, sentry->s_aliases);
+	name = ML_CString(msp, sentry->s_name);
 	port = INT_CtoML(ntohs(sentry->s_port));
 	proto = ML_CString(msp, sentry->s_proto);
 	REC_ALLOC4 (msp, res, name, aliases, port, proto);
-- 
2.43.0


From b4ac872a227a3c92cbe316500d7fa766ae3c0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 013/100] fix: read, recv and recvfrom terminate and zero-pad
 the data they return

Strings built from it failed literal patterns and lost their terminator when
passed to the system; recvfrom also shrank the buffer after allocating behind it.
---
 base/runtime/c-libs/posix-io/read.c          | 18 +++++++++++----
 base/runtime/c-libs/smlnj-sockets/recv.c     | 21 ++++++++++--------
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 23 ++++++++++++++------
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..c312708 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -5,6 +5,7 @@
 
 #include "ml-unixdep.h"
 #include <unistd.h>
+#include <string.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -23,21 +24,30 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     int		    nbytes = REC_SELINT(arg, 1);
     ml_val_t	    vec, res;
     int		    n;
+    Word_t	    nwords;
+    char	    *s;
 
     if (nbytes == 0)
 	return ML_string0;
 
-  /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
-    n = read (fd, PTR_MLtoC(char, vec), nbytes);
+  /* allocate the vector (including space for the terminating zero byte); note that
+   * this might cause a GC.
+   */
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
+    s = PTR_MLtoC(char, vec);
+    n = read (fd, s, nbytes);
     if (n < 0)
 	return RAISE_SYSERR(msp, n);
     else if (n == 0)
 	return ML_string0;
 
+  /* terminate the data and pad its last word with zero bytes (see ML_AllocString) */
+    nwords = BYTES_TO_WORDS(n+1);
+    memset (s+n, 0, nwords*WORD_SZB - n);
+
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, nwords);
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index a3f4180..25b5283 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -5,6 +5,7 @@
 
 #include "sockets-osdep.h"
 #include INCLUDE_SOCKET_H
+#include <string.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -22,14 +23,17 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     int		nbytes = REC_SELINT(arg, 1);
     int		flag = 0;
     ml_val_t	vec, res;
-    int		m, n;
+    int		n;
+    Word_t	nwords;
     char	*s;
 
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
-  /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+  /* allocate the vector (including space for the terminating zero byte); note that
+   * this might cause a GC.
+   */
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     s = PTR_MLtoC(char, vec);
     n = recv (sock, s, nbytes, flag);
@@ -39,16 +43,15 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     else if (n == 0)
 	return ML_string0;
 
-  /* pad the last word of the vector with zero bytes so that string pattern
-   * matching on the result will work.
+  /* terminate the data and pad the last word of the vector with zero bytes so that
+   * string pattern matching on the result will work.
    */
-    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
-	s[m] = '\0';
-    }
+    nwords = BYTES_TO_WORDS(n+1);
+    memset (s+n, 0, nwords*WORD_SZB - n);
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, nwords);
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..7b686b4 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -5,6 +5,7 @@
 
 #include "sockets-osdep.h"
 #include INCLUDE_SOCKET_H
+#include <string.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -25,32 +26,40 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     int		flag = 0;
     ml_val_t	vec;
     int		n;
+    Word_t	nwords;
+    char	*s;
 
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
 
-  /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+  /* allocate the vector (including space for the terminating zero byte); note that
+   * this might cause a GC.
+   */
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
+    s = PTR_MLtoC(char, vec);
 
     n = recvfrom (
-	sock, PTR_MLtoC(char, vec), nbytes, flag,
+	sock, s, nbytes, flag,
 	(struct sockaddr *)addrBuf, &addrLen);
 
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
 
 	if (n == 0)
 	    res = ML_string0;
 	else {
+	  /* terminate the data and pad the last word of the vector with zero bytes */
+	    nwords = BYTES_TO_WORDS(n+1);
+	    memset (s+n, 0, nwords*WORD_SZB - n);
 	    if (n < nbytes)
-	      /* we need to shrink the vector */
-		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	      /* we need to shrink the vector (before anything else is allocated) */
+		ML_ShrinkRaw (msp, vec, nwords);
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
-- 
2.43.0


From ad71c09bec57136878242575a65e78c6c64de423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:45 +0000
Subject: [PATCH 014/100] fix: Socket passes the oob flag before
 don't_route/peek, as the runtime expects

---
 .../Basis/Implementation/Sockets/socket.sml      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 9771ddd..ac923b5 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -285,7 +285,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (vec, i, len) = vbuf buffer
     in
-	if (len > 0) then sendV (fd, vec, i, len, don't_route, oob) else 0
+	if (len > 0) then sendV (fd, vec, i, len, oob, don't_route) else 0
     end
     fun sendVec' arg = sendVec'0 fdB arg
     fun sendVecNB' arg = wrapNB_o (sendVec'0 fdNB) arg
@@ -304,7 +304,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (arr, i, len) = abuf buffer
     in
-	if (len > 0) then sendA (fd, arr, i, len, don't_route, oob) else 0
+	if (len > 0) then sendA (fd, arr, i, len, oob, don't_route) else 0
     end
     fun sendArr' arg = sendArr'0 fdB arg
     fun sendArrNB' arg = wrapNB_o (sendArr'0 fdNB) arg
@@ -333,7 +333,7 @@ structure SocketImp : SOCKET =
 	val (vec, i, len) = vbuf buffer
     in
 	if (len > 0) then
-	    sendToV(fd, vec, i, len, don't_route, oob, addr)
+	    sendToV(fd, vec, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -357,7 +357,7 @@ structure SocketImp : SOCKET =
 	val (arr, i, len) = abuf buffer
     in
 	if (len > 0) then
-	    sendToA(fd, arr, i, len, don't_route, oob, addr)
+	    sendToA(fd, arr, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -372,7 +372,7 @@ structure SocketImp : SOCKET =
       fun recvV _ (_, 0, _, _) = W8V.fromList[]
 	| recvV getfd (sock, nbytes, peek, oob) =
 	    if nbytes < 0 then raise Size
-	    else recvV' (getfd sock, nbytes, peek, oob)
+	    else recvV' (getfd sock, nbytes, oob, peek)
       val recvA : (int * w8array * int * int * bool * bool) -> int
 	    = sockFn "recvBuf"
     in
@@ -398,7 +398,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (buf, i, sz) = abuf buffer
     in
-	if sz > 0 then recvA (fd, buf, i, sz, peek, oob) else 0
+	if sz > 0 then recvA (fd, buf, i, sz, oob, peek) else 0
     end
     fun recvArr' arg = recvArr'0 fdB arg
     fun recvArrNB' arg = wrapNB_o (recvArr'0 fdNB) arg
@@ -411,7 +411,7 @@ structure SocketImp : SOCKET =
 	| recvFromV getfd (sock, sz, peek, oob) =
 	  if sz < 0 then raise Size
 	  else let val fd = getfd sock
-		   val (data, addr) = recvFromV' (fd, sz, peek, oob)
+		   val (data, addr) = recvFromV' (fd, sz, oob, peek)
 	       in
 		   (data, ADDR addr)
 	       end
@@ -447,7 +447,7 @@ structure SocketImp : SOCKET =
 	val (buf, i, sz) = abuf asl
     in
 	if sz > 0 then let
-		val (n, addr) = recvFromA(fd, buf, i, sz, peek, oob)
+		val (n, addr) = recvFromA(fd, buf, i, sz, oob, peek)
 	    in
 		(n, ADDR addr)
 	    end
-- 
2.43.0


From 4e64647b8f9f36f3fdd81537aa591381cb66a357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:00 +0000
Subject: [PATCH 015/100] fix: Socket.familyOfAddr: sa_family is in host byte
 order

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..25be9eb 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -14,12 +14,12 @@
 
 /* _ml_Sock_getaddrfamily : addr -> af
  *
- * Extract the family field, convert to host byteorder, and return it.
+ * Extract the family field (which is in host byteorder) and return it.
  */
 ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 4276f7fb971075f0afbd75f47915efae82c2545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 016/100] fix: NetHostDB/UnixSock addresses: reject socket
 paths that do not fit sun_path

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..8b23ec4 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -8,6 +8,8 @@
 #include INCLUDE_TYPES_H
 #include INCLUDE_SOCKET_H
 #include INCLUDE_UN_H
+#include <string.h>
+#include <errno.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -26,6 +28,11 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path)) {
+	errno = ENAMETOOLONG;
+	return RAISE_SYSERR(msp, -1);
+    }
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From fb9d6ab8caeb727f73805763464f7230f9961081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 017/100] fix: getgroups collects before its result list
 overruns the allocation space

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..ac3d35a 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -11,6 +11,7 @@
 #include "ml-values.h"
 #include "ml-objects.h"
 #include "ml-c.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* some OSs use int[] as the second argument to getgroups(), when gid_t
@@ -31,10 +32,10 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 {
     ml_val_t    p, w;
 
-/** NOTE: we should do something about possible GC!!! **/
-
     p = LIST_nil;
     while (ngrps-- > 0) {
+	if (NeedGC (msp, (2+3)*WORD_SZB))
+	    InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From 0e8212e67654b1243edd6a5593d0bc3a518c8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 018/100] fix: OS.IO.poll counts ready items, not ready
 (descriptor, set) combinations

An item ready both for input and output, or a descriptor listed twice, gave a
garbage or missing result; descriptors beyond FD_SETSIZE overran the fd_set.
---
 base/runtime/c-libs/posix-os/poll.c | 33 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..3ed86ff 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -23,10 +23,12 @@
 #  error no support for I/O polling
 #endif
 #include INCLUDE_TIME_H
+#include <errno.h>
 #include "ml-base.h"
 #include "ml-c.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* bit masks for polling descriptors (see src/sml-nj/boot/Unix/os-io.sml) */
@@ -151,6 +153,10 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
+	if ((fd < 0) || (FD_SETSIZE <= fd)) {
+	    errno = EINVAL;
+	    return RAISE_SYSERR(msp, -1);
+	}
 	if ((flag & RD_BIT) != 0) {
 	    if (rfds == NIL(fd_set *)) {
 		rfds = &rset;
@@ -182,8 +188,19 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
-	int		i, resFlag;
+	struct { int fd, flag; } *resVec;
+	int		i, nItems, resFlag;
+
+      /* note that sts is the number of ready (descriptor, set) combinations, which
+       * may be more or less than the number of ready items.
+       */
+	for (nItems = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l))
+	    nItems++;
+	resVec = MALLOC(nItems * sizeof(*resVec));
+	if (resVec == NIL(void *)) {
+	    errno = ENOMEM;
+	    return RAISE_SYSERR(msp, -1);
+	}
 
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
 	    item	= LIST_hd(l);
@@ -197,15 +214,15 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))
 		resFlag |= ERR_BIT;
 	    if (resFlag != 0) {
-		REC_ALLOC2 (msp, item, INT_CtoML(fd), INT_CtoML(resFlag));
-		resVec[i++] = item;
+		resVec[i].fd = fd;
+		resVec[i++].flag = resFlag;
 	    }
 	}
 
-	ASSERT(i == sts);
-
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	for (l = LIST_nil;  --i >= 0;  ) {
+	    if (NeedGC (msp, 2*(3*WORD_SZB)))
+		InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
+	    REC_ALLOC2 (msp, item, INT_CtoML(resVec[i].fd), INT_CtoML(resVec[i].flag));
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0


From ff348732d868862952659083b1a2e665f4081b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 019/100] fix: exec, execp and exece build argv/envp outside
 the ML heap, with room for envp

---
 base/runtime/c-libs/posix-process/exec.c  | 12 ++++++++++--
 base/runtime/c-libs/posix-process/exece.c | 20 +++++++++++++++++---
 base/runtime/c-libs/posix-process/execp.c | 12 ++++++++++--
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..bef27f2 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exec : string * string list -> 'a
  *
@@ -28,14 +29,21 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+  /* the vector is not allocated in the ML heap, since that might move path and arglst */
+    argv = cp = NEW_VEC(char *, nArgs + 1);
+    if (argv == NIL(char **))
+        return RAISE_ERROR(msp, "out of memory");
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+    if (sts < 0) {
+        int err = errno;
+        FREE(argv);
+        errno = err;
+    }
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..1a14a02 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exece : string * string list * string list -> 'a
  *
@@ -23,14 +24,22 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     char            **argv, **envp;
     ml_val_t        p;
     char            **cp;
-    int             nArgs;
+    int             nArgs, nEnv;
 
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    for (nEnv = 0, p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nEnv++;
+    }
+
+  /* space for argv and envp; it is not allocated in the ML heap, since that
+   * might move path, arglst and envlst.
+   */
+    argv = cp = NEW_VEC(char *, nArgs + nEnv + 2);
+    if (argv == NIL(char **))
+        return RAISE_ERROR(msp, "out of memory");
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
@@ -42,6 +51,11 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the envp[] */
 
     sts = execve(STR_MLtoC(path), argv, envp);
+    if (sts < 0) {
+        int err = errno;
+        FREE(argv);
+        errno = err;
+    }
 
     CHK_RETURN (msp, sts)
 
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..67d193a 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_execp : string * string list -> 'a
  *
@@ -28,14 +29,21 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+  /* the vector is not allocated in the ML heap, since that might move file and arglst */
+    argv = cp = NEW_VEC(char *, nArgs + 1);
+    if (argv == NIL(char **))
+        return RAISE_ERROR(msp, "out of memory");
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execvp(STR_MLtoC(file), argv);
+    if (sts < 0) {
+        int err = errno;
+        FREE(argv);
+        errno = err;
+    }
 
     CHK_RETURN (msp, sts)
 
-- 
2.43.0


From 965aa49d79810f5ce8f078bb147265ae5a1a957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 020/100] fix: waitpid status is defined when WNOHANG finds no
 child ready

---
 base/runtime/c-libs/posix-process/waitpid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..2b509b3 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -21,7 +21,8 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
     ml_val_t	ml_options = REC_SEL(arg, 1);
     int		options = SYSWORD_MLtoC(ml_options);
     int		pid;
-    int		status, how, val;
+    int		status = 0;	/* waitpid does not set it, when WNOHANG is given and no child is ready */
+    int		how, val;
     ml_val_t	r;
 
     pid = waitpid(REC_SELINT(arg, 0), &status, options);
-- 
2.43.0


From 3ebdd2e136d825ae674c1ed0f09f1633b9d3e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 021/100] fix: image names longer than 1023 bytes;
 single-character names that already have the suffix

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 9 +++++++--
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 9 +++++++--
 base/runtime/gc/import-heap.c                   | 6 ++++--
 base/runtime/include/ml-base.h                  | 1 +
 base/runtime/kernel/qualify-name.c              | 2 +-
 5 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index 7dac946..2d618e6 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -21,15 +21,20 @@
  */
 ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
 {
-    char	fname[1024];
+    char	*fname;
     ml_val_t	mlName = REC_SEL(arg, 0);
     ml_val_t	funct = REC_SEL(arg, 1);
     FILE	*file;
     int		sts;
 
+    fname = NEW_VEC(char, strlen(STR_MLtoC(mlName)) + MAX_IMAGE_SUFFIX_LEN + 1);
+    if (fname == NIL(char *))
+	return RAISE_ERROR(msp, "out of memory");
     QualifyImageName (strcpy(fname, STR_MLtoC(mlName)));
 
-    if ((file = fopen(fname, "wb")) == NULL)
+    file = fopen(fname, "wb");
+    FREE(fname);
+    if (file == NULL)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     sts = ExportFnImage (msp, funct, file);
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index a854fc7..3fa0cd0 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -21,13 +21,18 @@
  */
 ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
 {
-    char	fname[1024];
+    char	*fname;
     FILE	*file;
     int		sts;
 
+    fname = NEW_VEC(char, strlen(STR_MLtoC(arg)) + MAX_IMAGE_SUFFIX_LEN + 1);
+    if (fname == NIL(char *))
+	return RAISE_ERROR(msp, "out of memory");
     QualifyImageName (strcpy(fname, STR_MLtoC(arg)));
 
-    if ((file = fopen(fname, "wb")) == NULL)
+    file = fopen(fname, "wb");
+    FREE(fname);
+    if (file == NULL)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     msp->ml_arg = ML_true;
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 56d5d17..f7f34a0 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -92,9 +92,10 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
             }
         }
         else {
-            char        buf[1024];
+            char        *buf = NEW_VEC(char, strlen(fname) + MAX_IMAGE_SUFFIX_LEN + 1);
 
-            if (QualifyImageName(strcpy(buf, fname))
+            if ((buf != NIL(char *))
+            && QualifyImageName(strcpy(buf, fname))
             && ((inBuf.file = fopen(buf, "rb")) != NULL)) {
                 if (! SilentLoad) {
                     Say("loading %s ", buf);
@@ -103,6 +104,7 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
             else {
                 Die ("unable to open heap image \"%s\"\n", fname);
             }
+            FREE(buf);
         }
 
         inBuf.needsSwap = FALSE;
diff --git a/base/runtime/include/ml-base.h b/base/runtime/include/ml-base.h
index 3a428e5..6b874c1 100644
--- a/base/runtime/include/ml-base.h
+++ b/base/runtime/include/ml-base.h
@@ -215,6 +215,7 @@ extern void BootML (const char *bootlist, heap_params_t *params);
 extern void LoadML (const char *loadImage, heap_params_t *params);
 extern void FreeMLState (ml_state_t *msp);
 
+#define MAX_IMAGE_SUFFIX_LEN	64	/* bound on what QualifyImageName appends */
 extern bool_t QualifyImageName (char *buf);
 extern void InitMLState (ml_state_t *msp);
 extern void SaveCState (ml_state_t *msp, ...);
diff --git a/base/runtime/kernel/qualify-name.c b/base/runtime/kernel/qualify-name.c
index 292546c..7069b70 100644
--- a/base/runtime/kernel/qualify-name.c
+++ b/base/runtime/kernel/qualify-name.c
@@ -20,7 +20,7 @@ bool_t QualifyImageName (char *buf)
     int		len = strlen(buf);
     int		midLen = sizeof(SUFFIX); /* length of ID + 1 */
 
-    if ((midLen+1 < len) && (buf[len-midLen] == '.')
+    if ((midLen < len) && (buf[len-midLen] == '.')
     && (strcmp(&(buf[len-(midLen-1)]), SUFFIX) == 0))
       /* the pathname is already qualified by the machine ID and OPSYS */
 	return FALSE;
-- 
2.43.0


From 83305dc68192c39cabd7faa26e3255f91adec9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 022/100] fix: long exception messages overran the buffer of
 UncaughtExn

---
 base/runtime/kernel/run-ml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index 33a6a4c..18b28cc 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -324,7 +324,7 @@ PVT void UncaughtExn (ml_val_t e)
     else {
         ml_val_t        desc = OBJ_DESC(val);
         if (desc == DESC_string)
-            sprintf (buf, "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
+            snprintf (buf, sizeof(buf), "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
         else
             sprintf (buf, "<unknown>");
     }
@@ -337,7 +337,7 @@ PVT void UncaughtExn (ml_val_t e)
             next = LIST_tl(traceBack);
         } while (next != LIST_nil);
         val = LIST_hd(traceBack);
-        sprintf (buf+strlen(buf), " raised at %.*s",
+        snprintf (buf+strlen(buf), sizeof(buf)-strlen(buf), " raised at %.*s",
                  (int) GET_SEQ_LEN(val), STR_MLtoC(val));
     }
 
-- 
2.43.0


From 80429331d94ee9ea4895962ec1d7e1f5704a78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 023/100] fix: ML_SysConstList mixed words and bytes in its
 space bound

---
 base/runtime/gc/ml-objects.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index c1ed70c..ea9dfea 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -519,7 +519,7 @@ ml_val_t ML_SysConstList (ml_state_t *msp, sysconst_tbl_t *tbl)
       /* required space for string header+data (4 words + string bytes), pair (3 words),
        * cons (3 words).
        */
-        reqSpace = (4 + 3 + 3) * WORD_SZB + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1);
+        reqSpace = ((4 + 3 + 3) + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1)) * WORD_SZB;
         if (reqSpace >= availSpace) {
             InvokeGCWithRoots (msp, 0, (ml_val_t *)&list, NIL(ml_val_t *));
             availSpace = ((size_t)msp->ml_limitPtr - (size_t)msp->ml_allocPtr);
-- 
2.43.0


From cc73ae89be919958b42a191d40557c30efc84267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 024/100] fix: runtime options: long option names, missing
 arguments and unopenable debug files

---
 base/runtime/kernel/main.c       | 6 ++++--
 base/runtime/kernel/ml-options.c | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/base/runtime/kernel/main.c b/base/runtime/kernel/main.c
index 5e8078c..83a4b6b 100644
--- a/base/runtime/kernel/main.c
+++ b/base/runtime/kernel/main.c
@@ -83,6 +83,8 @@ PVT void ParseOptions (int argc, char **argv, heap_params_t **heapParams)
     char	option[MAX_OPT_LEN], *optionArg, **nextArg;
     bool_t	errFlg = FALSE;
 
+    MLCmdName = argv[0];  /* used by Error */
+
   /* first scan for any heap/GC parameters */
     if ((*heapParams = ParseHeapParams(argv)) == NIL(heap_params_t *))
 	errFlg = TRUE;
@@ -144,7 +146,7 @@ PVT void ParseOptions (int argc, char **argv, heap_params_t **heapParams)
 		if ((DebugF = fopen(optionArg, "w")) == NULL) {
 		    DebugF = stderr; /* restore the file pointer */
 		    errFlg = TRUE;
-		    Error("unable to open debug output file \"%s\"\n", *(argv[-1]));
+		    Error("unable to open debug output file \"%s\"\n", optionArg);
 		    continue;
 		}
 	    }
@@ -154,7 +156,7 @@ PVT void ParseOptions (int argc, char **argv, heap_params_t **heapParams)
 		StatsFD = open (optionArg, O_WRONLY|O_TRUNC|O_CREAT, 0666);
 		if (StatsFD == -1) {
 		    errFlg = TRUE;
-		    Error("unable to open statistics file \"%s\"\n", *(argv[-1]));
+		    Error("unable to open statistics file \"%s\"\n", optionArg);
 		    continue;
 		}
 	    }
diff --git a/base/runtime/kernel/ml-options.c b/base/runtime/kernel/ml-options.c
index 7ebfa02..5359ce1 100644
--- a/base/runtime/kernel/ml-options.c
+++ b/base/runtime/kernel/ml-options.c
@@ -22,10 +22,13 @@ bool_t isRuntimeOption (char *cmdLineArg, char *option, char **arg)
     char	*cp = cmdLineArg, c;
 
     if ((*cp++ == '@') && (*cp++ == 'S') && (*cp++ == 'M') && (*cp++ == 'L')) {
-	while (((c = *cp++) != '\0') && (c != '='))
-	  *option++ = c;
+	char	*end = option + MAX_OPT_LEN - 1;
+	for (;  ((c = *cp) != '\0') && (c != '=');  cp++) {
+	    if (option < end)
+		*option++ = c;
+	}
 	*option = '\0';
-	*arg = cp;
+	*arg = (c == '=') ? cp+1 : cp;	/* empty, if there is no "=yyy" part */
 	return TRUE;
     }
     else
-- 
2.43.0


From 1c032cedf358372a116bc0287c7ef526fe925c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:16 +0000
Subject: [PATCH 025/100] fix: file times before 1970 (signed conversion in
 utime and stat)

---
 base/runtime/c-libs/posix-filesys/utime.c      | 18 ++++++++++++------
 .../Implementation/Posix/posix-filesys.sml     |  6 +++---
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/posix-filesys/utime.c b/base/runtime/c-libs/posix-filesys/utime.c
index a47f6af..09302cc 100644
--- a/base/runtime/c-libs/posix-filesys/utime.c
+++ b/base/runtime/c-libs/posix-filesys/utime.c
@@ -15,6 +15,16 @@
 
 /* FIXME: utimensat is the newest way to implement this mechanism */
 
+/* convert (signed) nanoseconds to a timeval, rounding down to microseconds */
+PVT void ns_to_timeval (Int64_t ns, struct timeval *tv)
+{
+    Int64_t	us = (ns >= 0) ? ns / 1000 : -((999 - ns) / 1000);
+    Int64_t	sec = (us >= 0) ? us / 1000000 : -((999999 - us) / 1000000);
+
+    tv->tv_sec = sec;
+    tv->tv_usec = us - 1000000 * sec;
+}
+
 /* _ml_P_FileSys_utime : (string * Word64.word * Word64.word) -> unit
  *                        name     actime(ns)    modtime(ns)
  *
@@ -33,12 +43,8 @@ ml_val_t _ml_P_FileSys_utime (ml_state_t *msp, ml_val_t arg)
     }
     else {
         struct timeval	times[2];
-	Unsigned64_t us = actime / 1000;	/* convert to microseconds */
-	times[0].tv_sec = us / 1000000;
-	times[0].tv_usec = us % 1000000;
-	us = modtime / 1000;			/* convert to microseconds */
-	times[1].tv_usec = us % 1000000;
-	times[1].tv_sec = us / 1000000;
+	ns_to_timeval ((Int64_t)actime, &times[0]);
+	ns_to_timeval ((Int64_t)modtime, &times[1]);
 	sts = utimes (STR_MLtoC(path), times);
     }
 
diff --git a/base/system/Basis/Implementation/Posix/posix-filesys.sml b/base/system/Basis/Implementation/Posix/posix-filesys.sml
index c7fef17..6efeee8 100644
--- a/base/system/Basis/Implementation/Posix/posix-filesys.sml
+++ b/base/system/Basis/Implementation/Posix/posix-filesys.sml
@@ -255,9 +255,9 @@ structure POSIX_FileSys =
             uid = UID(#6 sr),
             gid = GID(#7 sr),
             size = #8 sr,
-            atime = Time.fromNanoseconds (Word64.toLargeInt (#9 sr)),
-            mtime = Time.fromNanoseconds (Word64.toLargeInt (#10 sr)),
-            ctime = Time.fromNanoseconds (Word64.toLargeInt (#11 sr))
+            atime = Time.fromNanoseconds (Word64.toLargeIntX (#9 sr)),
+            mtime = Time.fromNanoseconds (Word64.toLargeIntX (#10 sr)),
+            ctime = Time.fromNanoseconds (Word64.toLargeIntX (#11 sr))
           }
 
     val stat' : string -> statrep = cfun "stat"
-- 
2.43.0


From b0dadc16d6d65245dae92460d2d991df1dc97c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:48 +0000
Subject: [PATCH 026/100] fix: Posix.Process.kill K_SAME_GROUP signals the
 process group, not every process

---
 base/system/Basis/Implementation/Posix/posix-process.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Posix/posix-process.sml b/base/system/Basis/Implementation/Posix/posix-process.sml
index e92c59c..3681b5b 100644
--- a/base/system/Basis/Implementation/Posix/posix-process.sml
+++ b/base/system/Basis/Implementation/Posix/posix-process.sml
@@ -114,7 +114,7 @@ structure POSIX_Process =
 
     val kill' : s_int * s_int -> unit = cfun "kill"
     fun kill (K_PROC (PID pid),Sig.SIG s) = kill'(pid, s)
-      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(~1, s)
+      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(0, s)
       | kill (K_GROUP (PID pid),Sig.SIG s) = kill'(~pid, s)
 
 (* TODO: generalize to finer-grain sleeping (bug #173); also alarm *)
-- 
2.43.0


From 5384b267d07e2284c0f0cad4259b4a384e48ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 027/100] fix: canInput lost buffered input; setPosOut did not
 flush; inputAll on empty strings and size-0 special files

---
 base/system/Basis/Implementation/IO/bin-io-fn.sml  | 9 ++++++---
 base/system/Basis/Implementation/IO/text-io-fn.sml | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/base/system/Basis/Implementation/IO/bin-io-fn.sml b/base/system/Basis/Implementation/IO/bin-io-fn.sml
index 9c3af50..d4d1bd9 100644
--- a/base/system/Basis/Implementation/IO/bin-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/bin-io-fn.sml
@@ -147,7 +147,7 @@ functor BinIOFn (
 	      val INFO{readVec, reader=PIO.RD{chunkSize, ...}, ...} =
 		     infoOfIBuf buf
 	      in
-		case (chunkSize - 1)
+		case (Int.max (chunkSize, 1) - 1)
 		 of 0 => (fn n => readVec n)
 (* FIXME: what if the rounded size is > maxInputSz? *)
 		  | k => (* round up to next multiple of chunkSize *)
@@ -231,7 +231,9 @@ functor BinIOFn (
 	      fun bigChunk _ = let
 		    val delta = (case avail()
 			   of NONE => chunkSzOfIBuf buf
-			    | (SOME n) => if (n > maxInputSz)
+			    | (SOME n) => if (n <= 0) (* perhaps not a plain file *)
+				then chunkSzOfIBuf buf
+			      else if (n > maxInputSz)
 				then raise Size
 				else Position.toInt n
 			  (* end case *))
@@ -265,7 +267,7 @@ functor BinIOFn (
 			then SOME n
 			else nextBuf (buf, n - remain)
 		    end
-	      and nextBuf (IBUF{more, ...}, n) = (case !more
+	      and nextBuf (buf as IBUF{more, ...}, n) = (case !more
 		     of (MORE buf) => tryInput (buf, 0, n)
 		      | (EOS _) => SOME(amount - n)
 		      | TERMINATED => SOME(amount - n)
@@ -541,6 +543,7 @@ functor BinIOFn (
 	      isClosedOut (strm, "filePosOut"); pos)
 	fun setPosOut (OUTP{pos, strm as OSTRM{writer, ...}}) = (
 	      isClosedOut (strm, "setPosOut");
+	      flushBuffer (strm, "setPosOut");
 	      case writer
 	       of PIO.WR{setPos=SOME f, ...} => (
 		    (f pos; strm)
diff --git a/base/system/Basis/Implementation/IO/text-io-fn.sml b/base/system/Basis/Implementation/IO/text-io-fn.sml
index b4ac1d8..900ac51 100644
--- a/base/system/Basis/Implementation/IO/text-io-fn.sml
+++ b/base/system/Basis/Implementation/IO/text-io-fn.sml
@@ -154,7 +154,7 @@ functor TextIOFn (
 	      val INFO{readVec, reader=PIO.RD{chunkSize, ...}, ...} =
 		     infoOfIBuf buf
 	      in
-		case (chunkSize - 1)
+		case (Int.max (chunkSize, 1) - 1)
 		 of 0 => (fn n => readVec n)
 (* FIXME: what if the rounded size is > maxInputSz? *)
 		  | k => (* round up to next multiple of chunkSize *)
@@ -243,7 +243,9 @@ functor TextIOFn (
 	      fun bigChunk _ = let
 		    val delta = (case avail()
 			   of NONE => chunkSzOfIBuf buf
-			    | (SOME n) => if (n > maxInputSz)
+			    | (SOME n) => if (n <= 0) (* perhaps not a plain file *)
+				then chunkSzOfIBuf buf
+			      else if (n > maxInputSz)
 				then raise Size
 				else Position.toInt n
 			  (* end case *))
@@ -277,7 +279,7 @@ functor TextIOFn (
 			then SOME n
 			else nextBuf (buf, n - remain)
 		    end
-	      and nextBuf (IBUF{more, ...}, n) = (case !more
+	      and nextBuf (buf as IBUF{more, ...}, n) = (case !more
 		     of (MORE buf) => tryInput (buf, 0, n)
 		      | (EOS _) => SOME(amount - n)
 		      | TERMINATED => SOME(amount - n)
@@ -644,6 +646,7 @@ functor TextIOFn (
 	      isClosedOut (strm, "filePosOut"); pos)
 	fun setPosOut (OUTP{pos, strm as OSTRM{writer, ...}}) = (
 	      isClosedOut (strm, "setPosOut");
+	      flushBuffer (strm, "setPosOut");
 	      case writer
 	       of PIO.WR{setPos=SOME f, ...} => (
 		    (f pos; strm)
-- 
2.43.0


From 0b217c1f1b0e6090165506a9dd3585434dec85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 028/100] fix: getlk returned an uninitialised pid for a free
 range

---
 base/runtime/c-libs/posix-io/fcntl_l.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 8567513..82e3579 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -34,6 +34,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     flock.l_whence = REC_SELINT(flock_rep, 1);
     flock.l_start = (off_t)INT64_MLtoC(start);
     flock.l_len = (off_t)INT64_MLtoC(length);
+    flock.l_pid = REC_SELINT(flock_rep, 4);
 
     sts = fcntl(fd, cmd, &flock);
 
-- 
2.43.0


From 38bd5bfc8c9b1aa6ea397db9a1a93d6aec637de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:46 +0000
Subject: [PATCH 029/100] fix: a failed exec in the child of OS.Process.system
 or Unix.execute must not return into the program

---
 base/system/Basis/Implementation/Unix/os-process.sml | 2 +-
 base/system/Basis/Implementation/Unix/unix.sml       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Unix/os-process.sml b/base/system/Basis/Implementation/Unix/os-process.sml
index c913c4c..d737b1a 100644
--- a/base/system/Basis/Implementation/Unix/os-process.sml
+++ b/base/system/Basis/Implementation/Unix/os-process.sml
@@ -27,7 +27,7 @@ structure OS_Process : OS_PROCESS =
     fun system cmd = (case P_Proc.fork()
 	   of NONE => (
 		P_Proc.exec ("/bin/sh", ["sh", "-c", cmd])
-		P_Proc.exit 0w127)
+		  handle _ => P_Proc.exit 0w127)
 	    | (SOME pid) => let
 		fun savSig s = Signals.setHandler (s, Signals.IGNORE)
 		val savSigInt = savSig UnixSignals.sigINT
diff --git a/base/system/Basis/Implementation/Unix/unix.sml b/base/system/Basis/Implementation/Unix/unix.sml
index 25f2ae5..374515f 100644
--- a/base/system/Basis/Implementation/Unix/unix.sml
+++ b/base/system/Basis/Implementation/Unix/unix.sml
@@ -141,6 +141,8 @@ structure Unix : UNIX =
 			else (PIO.dup2{old = oldout, new = newout};
                               PIO.close oldout);
 			P.exece (cmd, base::argv, env)
+			  (* the child must not return into the program *)
+			  handle _ => P.exit 0w127
 		    end
             val _ = TextIO.flushOut TextIO.stdOut
             val pid = (startChild ()) handle ex => (closep(); raise ex)
-- 
2.43.0


From a311f85b4cb98ee61499fa51a80fa1d3cc2b40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:12 +0000
Subject: [PATCH 030/100] fix: INT_CtoML truncated C ints of 2^30 and more to
 31 bits on 64-bit machines

---
 base/runtime/include/ml-values.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-values.h b/base/runtime/include/ml-values.h
index e6af1e2..7f9d9cc 100644
--- a/base/runtime/include/ml-values.h
+++ b/base/runtime/include/ml-values.h
@@ -38,7 +38,7 @@
 #endif
 
 #define INT_MLtoC(n)		(((Int_t)(n)) >> 1)
-#define INT_CtoML(n)		((ml_val_t)(Int_t)(2*(n) + 1))
+#define INT_CtoML(n)		((ml_val_t)(2*(Int_t)(n) + 1))
 #define PTR_MLtoC(ty,p)		PTR_CAST(ty *, p)
 #define PTR_CtoML(p)		PTR_CAST(ml_val_t, p)
 #else
-- 
2.43.0


From 42488242c7ae81ab6fef02ca6450f6194387106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:12 +0000
Subject: [PATCH 031/100] fix: atExit actions run before the standard streams
 are flushed and closed

---
 base/system/Basis/Implementation/OS/at-exit.sml | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/OS/at-exit.sml b/base/system/Basis/Implementation/OS/at-exit.sml
index 8fcf7e9..0eb1808 100644
--- a/base/system/Basis/Implementation/OS/at-exit.sml
+++ b/base/system/Basis/Implementation/OS/at-exit.sml
@@ -28,9 +28,14 @@ structure AtExit : sig
       | cleaner CU.AtExportFn = hooks := []
       | cleaner _ = ()
 
-    val _ = CU.addCleaner ("OS.Process", [CU.AtExit, CU.AtExportFn], cleaner)
+    fun register () = ignore (CU.addCleaner ("OS.Process", [CU.AtExit, CU.AtExportFn], cleaner))
 
-    fun atExit hook = hooks := hook :: !hooks
+    val _ = register ()
+
+  (* the atExit actions must run before the I/O streams are flushed and closed.  Cleaners
+   * are run last-registered first, so we register again to get ahead of the I/O cleaners.
+   *)
+    fun atExit hook = (register (); hooks := hook :: !hooks)
 
   end;
 
-- 
2.43.0


From 4ca817782e8f41f5652182fd56e300a770e79932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:35 +0000
Subject: [PATCH 032/100] fix: ChooseSignal's assertion bound counts signal
 numbers, which are sparse

---
 base/runtime/mach-dep/signal-util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/mach-dep/signal-util.c b/base/runtime/mach-dep/signal-util.c
index 8c9f7f4..e74456b 100644
--- a/base/runtime/mach-dep/signal-util.c
+++ b/base/runtime/mach-dep/signal-util.c
@@ -60,7 +60,7 @@ void ChooseSignal (vproc_state_t *vsp)
     i = vsp->vp_nextPendingSig;
     j = 0;
     do {
-	ASSERT (j++ < NUM_SIGS);
+	ASSERT (j++ < SIGMAP_SZ);
 	i++;
 	if (i == SIGMAP_SZ) i = MIN_SYSTEM_SIG;
 	delta = vsp->vp_sigCounts[i].nReceived - vsp->vp_sigCounts[i].nHandled;
-- 
2.43.0


From fdf6711101cf8f71b0f9497d28de299b86b674e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:20 +0000
Subject: [PATCH 033/100] fix: getRCVBUF/setRCVBUF operated on the send buffer

---
 base/system/Basis/Implementation/Sockets/socket.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index ac923b5..ba78be5 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -88,7 +88,7 @@ structure SocketImp : SOCKET =
 	  val ctlSNDBUF    : (sockFD * int option) -> int =
 		sockFn "ctlSNDBUF"
 	  val ctlRCVBUF    : (sockFD * int option) -> int =
-		sockFn "ctlSNDBUF"
+		sockFn "ctlRCVBUF"
 	in
       (* get/set socket options *)
 	fun getDEBUG x = getOpt ctlDEBUG x
-- 
2.43.0


From 371698430bfa6c6fef1e0eeabf0f4c2e47b77dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:35 +0000
Subject: [PATCH 034/100] fix: addresses of unnamed Unix-domain sockets were
 read beyond their end

---
 .../c-libs/smlnj-sockets/from-unixaddr.c        | 17 ++++++++++++++++-
 .../c-libs/smlnj-sockets/getaddrfamily.c        |  5 +++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
index fecee4b..aabe03d 100644
--- a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
@@ -3,6 +3,8 @@
  * COPYRIGHT (c) 1996 AT&T Research.
  */
 
+#include <stddef.h>
+#include <string.h>
 #include "ml-unixdep.h"
 #include "sockets-osdep.h"
 #include INCLUDE_TYPES_H
@@ -21,10 +23,23 @@
 ml_val_t _ml_Sock_fromunixaddr (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr_un	*addr = GET_SEQ_DATAPTR(struct sockaddr_un, arg);
+    char		path[sizeof(addr->sun_path)+1];
+    int			len = GET_SEQ_LEN(arg) - (int)offsetof(struct sockaddr_un, sun_path);
+
+  /* the address of an unnamed socket has no path (or is empty), and the path need
+   * not be terminated by a zero byte.
+   */
+    if (len <= 0)
+	return ML_string0;
 
     ASSERT(addr->sun_family == AF_UNIX);
 
-    return ML_CString(msp, addr->sun_path);
+    if (len >= (int)sizeof(path))
+	len = sizeof(path)-1;
+    memcpy (path, addr->sun_path, len);
+    path[len] = '\0';
+
+    return ML_CString(msp, path);
 
 } /* end of _ml_Sock_fromunixaddr */
 
diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index 25be9eb..6b17b92 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -3,6 +3,7 @@
  * COPYRIGHT (c) 1995 AT&T Bell Laboratories.
  */
 
+#include <stddef.h>
 #include "sockets-osdep.h"
 #include INCLUDE_SOCKET_H
 #include "ml-base.h"
@@ -20,6 +21,10 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
+  /* datagrams from unnamed sockets come with an empty address */
+    if (GET_SEQ_LEN(arg) < (int)(offsetof(struct sockaddr, sa_family) + sizeof(addr->sa_family)))
+	return ML_SysConst (msp, &_Sock_AddrFamily, AF_UNSPEC);
+
     return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 8d21e935d0f7c32dbac34d946aaf98a6aeab4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:57 +0000
Subject: [PATCH 035/100] fix: Date.fmt failed for dates before 1970 and
 changed the hour of dates in a clock change

---
 base/runtime/c-libs/smlnj-date/strftime.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-date/strftime.c b/base/runtime/c-libs/smlnj-date/strftime.c
index 8e809dc..a8fa8b5 100644
--- a/base/runtime/c-libs/smlnj-date/strftime.c
+++ b/base/runtime/c-libs/smlnj-date/strftime.c
@@ -46,10 +46,20 @@ ml_val_t _ml_Date_strftime (ml_state_t *msp, ml_val_t arg)
  * as part of the date normalization process, but we will need a different API
  * in the runtime system.
  */
-        /* normalize the time structure */
-        if (mktime(&tm) < 0) {
-	    return RAISE_ERROR(msp, "strftime failed: invalid tm struct");
-        }
+        /* find out about daylight savings time from a normalized copy; note that a
+	 * negative result of mktime is not an error (dates before 1970).
+	 */
+	struct tm norm = tm;
+	(void) mktime (&norm);
+	norm.tm_sec = tm.tm_sec;
+	norm.tm_min = tm.tm_min;
+	norm.tm_hour = tm.tm_hour;
+	norm.tm_mday = tm.tm_mday;
+	norm.tm_mon = tm.tm_mon;
+	norm.tm_year = tm.tm_year;
+	norm.tm_wday = tm.tm_wday;
+	norm.tm_yday = tm.tm_yday;
+	tm = norm;
     }
 
     sz = strftime (buf, sizeof(buf), STR_MLtoC(fmt), &tm);
-- 
2.43.0


From eeb9611db5104c0225f9785545c21d29c8750325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:57 +0000
Subject: [PATCH 036/100] fix: Date.fmt treated the character after %% as a
 conversion

---
 base/system/Basis/Implementation/date.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index fa8b640..286d6b3 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -404,7 +404,7 @@ structure Date : DATE =
 		      fun continue (len, ss') = (len, SS.slice(start, 0, SOME 2), ss')
 		      in
 			case SS.getc rest
-			 of NONE => (1, SS.full "%", rest)
+			 of NONE => (1, SS.full "%%", rest)
 			  | SOME(#"a", ss') => continue(3, ss')
 			  | SOME(#"A", ss') => continue(20, ss')
 			  | SOME(#"b", ss') => continue(3, ss')
@@ -426,6 +426,7 @@ structure Date : DATE =
 			  | SOME(#"y", ss') => continue(2, ss')
 			  | SOME(#"Y", ss') => continue(4, ss')
 			  | SOME(#"Z", ss') => continue(3, ss')
+			  | SOME(#"%", ss') => (1, SS.full "%%", ss')
 			  | SOME(c, ss') => (1, SS.full(String.str c), ss')
 			(* end case *)
 		      end
-- 
2.43.0


From 579a62663afca59db72bdc694c5f759bcf4c1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 037/100] fix: Date.toTime of a date with an explicit offset
 was wrong outside UTC; whole days of an offset were added as seconds

---
 base/system/Basis/Implementation/date.sml | 24 ++++++++++-------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index 286d6b3..2e28328 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -316,7 +316,7 @@ structure Date : DATE =
 	  } end
 
     fun date {year, month, day, hour, minute, second, offset} = let
-	  val (secAdjust, offset) = (case offset
+	  val (dayAdjust, offset) = (case offset
 		 of NONE => (0, NONE)
 		  | SOME t => let
 		      (* normalize offset to +/- one day in seconds.  Note that it
@@ -330,7 +330,7 @@ structure Date : DATE =
 		(* end case *))
 	  val normDate = normalizeDate {
 		  year = year, month = monthToInt month, day = day,
-		  hour = hour, minute = minute, second = second + secAdjust
+		  hour = hour + 24*dayAdjust, minute = minute, second = second
 		}
 	(* check that we are in AD at least *)
 	  val _ = if #year normDate < 0 then raise Date else ()
@@ -356,19 +356,15 @@ structure Date : DATE =
     fun fromTimeUniv t = tm2date (gmTime t, SOME Time.zeroTime)
 
   (* return the UTC time corresponding to the given date. *)
-    fun toTime (date as DATE{offset, ...}) = let
-	  val t = mkTime' (date2tm date)
+    fun toTime (date as DATE{offset=NONE, ...}) = nsToTime (mkTime' (date2tm date))
+      | toTime (DATE{offset=SOME offset, year, month, day, hour, minute, second, ...}) = let
+	(* the fields are the time in the zone that is `offset` west of UTC *)
+	  val days = toAbsoluteDay {year = year, month = monthToInt month + 1, day = day}
+		- toAbsoluteDay {year = 1970, month = 1, day = 1}
+	  val secs = 60 * (60 * (24 * days + hour) + minute) + second
+	  val t = Time.+(Time.fromSeconds (Int.toLarge secs), offset)
 	  in
-	    case offset
-	     of NONE => nsToTime t
-	      | SOME offset =>
-		(* note that representation of a date is canonical, which means that the
-		 * offset has already been applied, so we do not need to adjust by the
-		 * date's offset.  On the other hand, mkTime' returns the _local_ time,
-		 * so we do need to adjust for the local offset.
-		 *)
-		  Time.+(nsToTime t, localOffsetForTime t)  (* converts local time to UTC *)
-	    (* end case *)
+	    if Time.<(t, Time.zeroTime) then raise Date else t
 	  end
 
   (* date comparison does not take into account the offset
-- 
2.43.0


From 4e4dca176a19ae9cf1c40d4284c171b13c370ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 038/100] fix: CPU timers counted garbage-collection time twice

---
 base/system/Basis/Implementation/internal-timer.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/internal-timer.sml b/base/system/Basis/Implementation/internal-timer.sml
index b3d10c2..9794523 100644
--- a/base/system/Basis/Implementation/internal-timer.sml
+++ b/base/system/Basis/Implementation/internal-timer.sml
@@ -29,8 +29,9 @@ structure InternalTimer : sig
     in
     fun getTime () = let
 	  val (usr, sys, gc) = gettime' ()
+	(* note that the user time includes the garbage-collection time *)
 	  in {
-	    nongc = { usr = mkTime usr, sys = mkTime sys },
+	    nongc = { usr = Time.- (mkTime usr, mkTime gc), sys = mkTime sys },
 	    gc    = { usr = mkTime gc, sys = Time.zeroTime }
 	  } end
     end (* local *)
-- 
2.43.0


From 0cc189d85cd3e89934cb3cb522206ddd858db9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:11 +0000
Subject: [PATCH 039/100] fix: total timers of exportFn programs were relative
 to the exporting process

---
 base/system/smlnj/internal/int-sys.sml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/system/smlnj/internal/int-sys.sml b/base/system/smlnj/internal/int-sys.sml
index 1aca9f4..2dc99d5 100644
--- a/base/system/smlnj/internal/int-sys.sml
+++ b/base/system/smlnj/internal/int-sys.sml
@@ -74,6 +74,8 @@ structure InteractiveSystem : sig end =
       fun reset _ = (I.resetTimers (); Stats.reset ())
     in
     val _ = C.addCleaner ("initialize-timers-and-stats", [C.AtInit], reset)
+    (* ... and reset the timers when starting an exportFn image *)
+    val _ = C.addCleaner ("initialize-timers", [C.AtInitFn], fn _ => I.resetTimers ())
     end (* local *)
 
     (* initialize control *)
-- 
2.43.0


From 7ed129a45ad4d4c8a10ff2a18fdeacac6cac5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:09 +0000
Subject: [PATCH 040/100] fix: Date.fmt failed for long formats with time-zone
 names of more than three characters

---
 base/system/Basis/Implementation/date.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index 2e28328..bc3b8c2 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -421,7 +421,7 @@ structure Date : DATE =
 			  | SOME(#"X", ss') => continue(24, ss')
 			  | SOME(#"y", ss') => continue(2, ss')
 			  | SOME(#"Y", ss') => continue(4, ss')
-			  | SOME(#"Z", ss') => continue(3, ss')
+			  | SOME(#"Z", ss') => continue(64, ss')
 			  | SOME(#"%", ss') => (1, SS.full "%%", ss')
 			  | SOME(c, ss') => (1, SS.full(String.str c), ss')
 			(* end case *)
-- 
2.43.0


From 3813631f0dc58a29c398a2783bb659fb844a3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:06 +0000
Subject: [PATCH 041/100] fix: exporting a heap image reported success when its
 final blocks could not be written

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 3 ++-
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index 2d618e6..d11a18f 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -38,7 +38,8 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     sts = ExportFnImage (msp, funct, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS) {
 	Exit (0);
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index 3fa0cd0..341fba2 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -37,7 +37,8 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
 
     msp->ml_arg = ML_true;
     sts = ExportHeapImage (msp, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS)
 	return ML_false;
-- 
2.43.0


From 25460e8a803c301e9f6169fbe26f73145e4092a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:06 +0000
Subject: [PATCH 042/100] fix: a truncated table of external references in an
 image was read out of bounds

---
 base/runtime/gc/blast-in.c     |  2 ++
 base/runtime/gc/heap-in-util.c | 25 +++++++++++++++++++++----
 base/runtime/gc/import-heap.c  |  3 +++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index aa24ea3..24181e8 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -98,6 +98,8 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
 
   /* read the externals table */
     externs = HeapIO_ReadExterns (bp);
+    if (externs == NIL(ml_val_t *))
+	return FAILURE;
 
   /* read the arena headers. */
     arenaHdrsSize = (blastHdr.numArenas + blastHdr.numBOKinds)
diff --git a/base/runtime/gc/heap-in-util.c b/base/runtime/gc/heap-in-util.c
index f8cca96..b7e14c3 100644
--- a/base/runtime/gc/heap-in-util.c
+++ b/base/runtime/gc/heap-in-util.c
@@ -24,6 +24,9 @@ PVT status_t ReadBlock (FILE *file, void *blk, size_t len);
 
 
 /* HeapIO_ReadExterns:
+ *
+ * Read the table of external references.  This function returns NIL, if the
+ * table cannot be read or is malformed.
  */
 ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
 {
@@ -33,16 +36,30 @@ ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
     int			i;
 
   /* Read the header */
-    HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr));
+    if ((HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr)) == FAILURE)
+    || (hdr.numExterns < 0) || (hdr.externSzB < hdr.numExterns)) {
+	return NIL(ml_val_t *);
+    }
 
-    externs = NEW_VEC(ml_val_t, hdr.numExterns);
+    externs = NEW_VEC(ml_val_t, hdr.numExterns+1);
 
   /* Read in the names of the exported symbols */
-    buf = NEW_VEC(Byte_t, hdr.externSzB);
-    HeapIO_ReadBlock (bp, buf, hdr.externSzB);
+    buf = NEW_VEC(Byte_t, hdr.externSzB+1);
+    if ((externs == NIL(ml_val_t *)) || (buf == NIL(Byte_t *))
+    || (HeapIO_ReadBlock (bp, buf, hdr.externSzB) == FAILURE)) {
+	FREE (externs);
+	FREE (buf);
+	return NIL(ml_val_t *);
+    }
+    buf[hdr.externSzB] = 0;
 
   /* map the names of the external symbols to addresses in the run-time system */
     for (cp = buf, i = 0;  i < hdr.numExterns;  i++) {
+	if (cp >= buf + hdr.externSzB) {
+	    FREE (externs);
+	    FREE (buf);
+	    return NIL(ml_val_t *);
+	}
 	if ((externs[i] = ImportCSymbol ((char *)cp)) == ML_unit) {
 	    Die ("Run-time system does not provide \"%s\"", cp);
 	}
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index f7f34a0..11a9b1c 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -158,6 +158,9 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
 
   /* read the externals table */
     externs = HeapIO_ReadExterns (&inBuf);
+    if (externs == NIL(ml_val_t *)) {
+        Die ("failure reading external references\n");
+    }
 
   /* read and initialize the ML state info */
     READ(&inBuf, image, "failure reading vproc header");
-- 
2.43.0


From de4fb664d16cbf8f8c5b8398ad8e71f9e9ae5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:06 +0000
Subject: [PATCH 043/100] fix: heap2asm emitted a 32-bit image length that the
 64-bit runtime reads as 64 bits

---
 heap2asm/heap2asm.sml | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heap2asm/heap2asm.sml b/heap2asm/heap2asm.sml
index 221e508..ef93147 100644
--- a/heap2asm/heap2asm.sml
+++ b/heap2asm/heap2asm.sml
@@ -24,8 +24,11 @@ structure Main : sig
   (* assembly directives *)
     val textSection = "\t.text\n"
     val alignCode = if size64 then "\t.p2align 4\n" else "\t.p2align 3\n"
-    val alignData = "\t.p2align 2\n"
-    fun long n = concat ["\t.long ", Int.toString n, "\n"]
+    val alignData = if size64 then "\t.p2align 3\n" else "\t.p2align 2\n"
+  (* the runtime system reads the length as a C `long` *)
+    fun long n = concat [
+	    if size64 then "\t.quad " else "\t.long ", Int.toString n, "\n"
+	  ]
     fun global lab = concat["\t.globl ", lab, "\n"]
     fun label s = s ^ ":\n"
 
-- 
2.43.0


From a089a6829277f4bfba9392f24b126941a4aad778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:06 +0000
Subject: [PATCH 044/100] fix: exporting a heap that holds a continuation
 interrupted by a signal crashed

---
 base/runtime/kernel/globals.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/runtime/kernel/globals.c b/base/runtime/kernel/globals.c
index b6d18ea..bfff405 100644
--- a/base/runtime/kernel/globals.c
+++ b/base/runtime/kernel/globals.c
@@ -216,6 +216,10 @@ void RecordGlobals ()
 #if (CALLEESAVE == 0)
     RecordCSymbol ("return_a",		PTR_CtoML(return_a));
 #endif
+    RecordCSymbol ("sigh_resume",	PTR_CtoML(sigh_resume));
+    RecordCSymbol ("sigh_return",	PTR_CtoML(sigh_return_c));
+    RecordCSymbol ("pollh_resume",	PTR_CtoML(pollh_resume));
+    RecordCSymbol ("pollh_return",	PTR_CtoML(pollh_return_c));
 
   /* RunVec */
     RecordCSymbol ("RunVec.array",	PTR_CtoML(array_v+1));
-- 
2.43.0


From 4508141324ce276c6d9172dd5aef879c52738f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:06 +0000
Subject: [PATCH 045/100] fix: arenas of generations that an image does not
 have were left uninitialised

---
 base/runtime/gc/init-gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/gc/init-gc.c b/base/runtime/gc/init-gc.c
index 9745d04..edb99bd 100644
--- a/base/runtime/gc/init-gc.c
+++ b/base/runtime/gc/init-gc.c
@@ -235,6 +235,7 @@ void InitHeap (ml_state_t *msp, bool_t isBoot, heap_params_t *params)
 	gen->dirty	= NIL(card_map_t *);
 	for (j = 0;  j < NUM_ARENAS;  j++) {
 	    gen->arena[j] = NEW_OBJ(arena_t);
+	    memset ((char *)(gen->arena[j]), 0, sizeof(arena_t));
 	    gen->arena[j]->tospSizeB = 0;
 	    gen->arena[j]->reqSizeB = 0;
 	    gen->arena[j]->maxSizeB = max_sz;
-- 
2.43.0


From 47c89499ee9e8ad12587ea3202374a0594d206e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:25 +0000
Subject: [PATCH 046/100] fix: a truncated blast object was accepted, with
 garbage for the missing objects

---
 base/runtime/gc/blast-in.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index 24181e8..df2d123 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -155,7 +155,12 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
 	    if (arenaHdrs[i] != NIL(heap_arena_hdr_t *)) {
 	        arena_t	*ap = gen1->arena[i];
 	        arenaBase[i] = (Addr_t)(ap->nextw);
-	        HeapIO_ReadBlock (bp, (ap->nextw), arenaHdrs[i]->info.o.sizeB);
+	        if (HeapIO_ReadBlock (bp, (ap->nextw), arenaHdrs[i]->info.o.sizeB)
+		== FAILURE) {
+		    FREE (arenaHdrsBuf);
+		    FREE (externs);
+		    return FAILURE;
+		}
 /*SayDebug ("[%2d] Read [%#x..%#x)\n", i+1, ap->nextw,*/
 /*(Addr_t)(ap->nextw)+arenaHdrs[i]->info.o.sizeB);*/
 	    }
-- 
2.43.0


From 0bc2eaee13980e1709e0993f373841338b178646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 047/100] fix: exporting a heap image ignored errors from
 flushing its last blocks

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 2 ++
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index d11a18f..0adea10 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -38,6 +38,8 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     sts = ExportFnImage (msp, funct, file);
+    if (ferror (file))
+	sts = FAILURE;
     if (fclose (file) != 0)
 	sts = FAILURE;
 
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index 341fba2..7c06fdb 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -37,6 +37,8 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
 
     msp->ml_arg = ML_true;
     sts = ExportHeapImage (msp, file);
+    if (ferror (file))
+	sts = FAILURE;
     if (fclose (file) != 0)
 	sts = FAILURE;
 
-- 
2.43.0


From cdb3285059eaab117e6b63a92e7ac729de4a86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:54 +0000
Subject: [PATCH 048/100] fix: computations interrupted by a signal could not
 be resumed in an imported heap

---
 base/runtime/mach-dep/signal-util.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/base/runtime/mach-dep/signal-util.c b/base/runtime/mach-dep/signal-util.c
index e74456b..d2efe7d 100644
--- a/base/runtime/mach-dep/signal-util.c
+++ b/base/runtime/mach-dep/signal-util.c
@@ -85,20 +85,22 @@ vsp->vp_sigCode, vsp->vp_sigCount);
  *
  * Build the resume continuation for a signal or poll event handler.
  * This closure contains the address of the resume entry-point and
- * the registers from the ML State.
+ * the registers from the ML State.  The PC can be any byte address, but only
+ * word-aligned addresses look like pointers to the collector and to the heap
+ * exporter, so we represent it as an aligned code address plus an offset.
  *
  * At least 4K avail. heap assumed.
  */
 ml_val_t MakeResumeCont (ml_state_t *msp, ml_val_t resume[])
 {
   /* allocate the resumption closure */
-    ML_AllocWrite(msp,  0, MAKE_DESC(10, DTAG_record));
+    ML_AllocWrite(msp,  0, MAKE_DESC(11, DTAG_record));
     ML_AllocWrite(msp,  1, PTR_CtoML(resume));
     ML_AllocWrite(msp,  2, msp->ml_arg);
     ML_AllocWrite(msp,  3, msp->ml_cont);
     ML_AllocWrite(msp,  4, msp->ml_closure);
     ML_AllocWrite(msp,  5, msp->ml_linkReg);
-    ML_AllocWrite(msp,  6, msp->ml_pc);
+    ML_AllocWrite(msp,  6, PTR_CtoML(PTR_MLtoADDR(msp->ml_pc) & ~(Addr_t)(WORD_SZB-1)));
     ML_AllocWrite(msp,  7, msp->ml_exnCont);
     /* John (Reppy) says that varReg should not be included here...
     ML_AllocWrite(msp,  8, msp->ml_varReg);
@@ -106,8 +108,9 @@ ml_val_t MakeResumeCont (ml_state_t *msp, ml_val_t resume[])
     ML_AllocWrite(msp,  8, msp->ml_calleeSave[0]);
     ML_AllocWrite(msp,  9, msp->ml_calleeSave[1]);
     ML_AllocWrite(msp, 10, msp->ml_calleeSave[2]);
+    ML_AllocWrite(msp, 11, INT_CtoML(PTR_MLtoADDR(msp->ml_pc) & (WORD_SZB-1)));
 
-    return ML_Alloc(msp, 10);
+    return ML_Alloc(msp, 11);
 
 } /* end of MakeResumeCont */
 
@@ -161,7 +164,8 @@ SayDebug ("LoadResumeState:\n");
     msp->ml_cont		= contClosure[2];
     msp->ml_closure		= contClosure[3];
     msp->ml_linkReg		= contClosure[4];
-    msp->ml_pc			= contClosure[5];
+    msp->ml_pc			= PTR_CtoML(PTR_MLtoADDR(contClosure[5])
+					+ INT_MLtoC(contClosure[10]));
     msp->ml_exnCont		= contClosure[6];
     /* John says ...
     msp->ml_varReg		= contClosure[7];
-- 
2.43.0


From dd069ecf25592e4ab9b33971b64c1c819d5a2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:57 +0000
Subject: [PATCH 049/100] fix: blasting an empty string or vector wrote an
 address that is only valid in the writing process

---
 base/runtime/gc/blast-out.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/blast-out.c b/base/runtime/gc/blast-out.c
index d1fb93e..d3accdc 100644
--- a/base/runtime/gc/blast-out.c
+++ b/base/runtime/gc/blast-out.c
@@ -39,7 +39,16 @@ ml_val_t BlastOut (ml_state_t *msp, ml_val_t obj)
 
     gen = GetObjGen (obj);
 
-    if (gen == -1) {
+    if (isBOXED(obj) && isUNMAPPED(ADDR_TO_PAGEID(BIBOP, obj))) {
+      /* an object in the run-time system (e.g., the empty string) */
+	res = BlastGC (msp, &obj, 0);
+	obj = ExportCSymbol (res.exportTbl, obj);
+	blastedObj = (obj == ML_unit) ? BLAST_ERROR : BlastHeap (msp, obj, &res);
+	res.needsRepair = TRUE;
+	res.maxGen = 0;
+	BlastGC_FinishUp (msp, &res);
+    }
+    else if (gen == -1) {
       /* unboxed */
 	blastedObj = BlastUnboxed (msp, obj);
     }
-- 
2.43.0


From 1e8be81b4370a442b676f6252623780c9ee94d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:06 +0000
Subject: [PATCH 050/100] fix: masking or disabling a signal that was already
 received killed the program

---
 base/runtime/include/ml-signals.h   |  3 ++
 base/runtime/include/vproc-state.h  |  3 ++
 base/runtime/kernel/ml-state.c      |  2 ++
 base/runtime/mach-dep/signal-util.c | 47 +++++++++++++++++++++++++++++
 base/runtime/mach-dep/unix-signal.c | 37 ++++++++++++++++++++---
 5 files changed, 88 insertions(+), 4 deletions(-)

diff --git a/base/runtime/include/ml-signals.h b/base/runtime/include/ml-signals.h
index fcbbe75..32b32a0 100644
--- a/base/runtime/include/ml-signals.h
+++ b/base/runtime/include/ml-signals.h
@@ -37,6 +37,9 @@ extern void PauseUntilSignal (vproc_state_t *vsp);
 extern void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState);
 extern int GetSignalState (vproc_state_t *vsp, int sigNum);
 extern void SetSignalMask (ml_val_t sigList);
+extern void HoldSignal (vproc_state_t *vsp, int sig);
+extern void ReleaseSignal (vproc_state_t *vsp, int sig);
+extern void DiscardSignal (vproc_state_t *vsp, int sig);
 extern ml_val_t GetSignalMask (ml_state_t *msp);
 
 #endif /* !_ML_SIGNALS_ */
diff --git a/base/runtime/include/vproc-state.h b/base/runtime/include/vproc-state.h
index 218eb02..7a2559f 100644
--- a/base/runtime/include/vproc-state.h
+++ b/base/runtime/include/vproc-state.h
@@ -50,6 +50,9 @@ struct vproc_state {
     int		vp_sigCount;		/* signal to handle. */
     int		vp_nextPendingSig;	/* the index in sigCounts of the next */
 					/* signal to handle. */
+    Word_t	vp_sigHeld[SIGMAP_SZ];	/* counts of signals that were received, but */
+					/* are held back while they are masked. */
+    bool_t	vp_gcSigMasked;		/* True, if the GC signal is masked */
     int		vp_gcSigState;		/* the state of the GC signal handler */
     int         vp_gcSigThreshold;      /* the generation threshold for generating a */
                                         /* GC signal (0 => all, 1 => gen 1, ...) */
diff --git a/base/runtime/kernel/ml-state.c b/base/runtime/kernel/ml-state.c
index be52d0e..5b4ceec 100644
--- a/base/runtime/kernel/ml-state.c
+++ b/base/runtime/kernel/ml-state.c
@@ -115,6 +115,7 @@ PVT void InitVProcState (vproc_state_t *vsp)
     vsp->vp_sigCode			= 0;
     vsp->vp_sigCount			= 0;
     vsp->vp_nextPendingSig		= MIN_SYSTEM_SIG;
+    vsp->vp_gcSigMasked			= FALSE;
     vsp->vp_gcSigState			= ML_SIG_IGNORE;
     vsp->vp_gcSigThreshold              = 1;  /* by default, we ignore minor collections */
     vsp->vp_gcTime0			= NEW_OBJ(Time_t);
@@ -123,6 +124,7 @@ PVT void InitVProcState (vproc_state_t *vsp)
     for (i = 0;  i < SIGMAP_SZ;  i++) {
 	vsp->vp_sigCounts[i].nReceived = 0;
 	vsp->vp_sigCounts[i].nHandled = 0;
+	vsp->vp_sigHeld[i] = 0;
     }
 
   /* initialize the ML state, including the roots */
diff --git a/base/runtime/mach-dep/signal-util.c b/base/runtime/mach-dep/signal-util.c
index d2efe7d..182fc22 100644
--- a/base/runtime/mach-dep/signal-util.c
+++ b/base/runtime/mach-dep/signal-util.c
@@ -38,6 +38,11 @@ void GCSignal (vproc_state_t *vsp, int nGen)
     vsp->vp_sigCounts[RUNSIG_GC].nReceived++;
     vsp->vp_totalSigCount.nReceived++;
 
+    if (vsp->vp_gcSigMasked) {
+	HoldSignal (vsp, RUNSIG_GC);
+	return;
+    }
+
     if (vsp->vp_inMLFlag && (! vsp->vp_handlerPending) && (! vsp->vp_inSigHandler)) {
 	vsp->vp_handlerPending = TRUE;
     }
@@ -45,6 +50,48 @@ void GCSignal (vproc_state_t *vsp, int nGen)
 } /* end of GCSignal */
 
 
+/* HoldSignal:
+ *
+ * Hold back the occurrences of a masked signal that have been received, but not
+ * yet passed to ML.  Note that we only adjust the counts of handled signals, since
+ * the counts of received signals belong to the C signal handler.
+ */
+void HoldSignal (vproc_state_t *vsp, int sig)
+{
+    Word_t	delta = vsp->vp_sigCounts[sig].nReceived - vsp->vp_sigCounts[sig].nHandled;
+
+    vsp->vp_sigHeld[sig] += delta;
+    vsp->vp_sigCounts[sig].nHandled += delta;
+    vsp->vp_totalSigCount.nHandled += delta;
+
+} /* end of HoldSignal */
+
+
+/* ReleaseSignal:
+ *
+ * Make the held back occurrences of a signal pending again.
+ */
+void ReleaseSignal (vproc_state_t *vsp, int sig)
+{
+    vsp->vp_sigCounts[sig].nHandled -= vsp->vp_sigHeld[sig];
+    vsp->vp_totalSigCount.nHandled -= vsp->vp_sigHeld[sig];
+    vsp->vp_sigHeld[sig] = 0;
+
+} /* end of ReleaseSignal */
+
+
+/* DiscardSignal:
+ *
+ * Discard the pending occurrences of a signal that no longer has an ML handler.
+ */
+void DiscardSignal (vproc_state_t *vsp, int sig)
+{
+    HoldSignal (vsp, sig);
+    vsp->vp_sigHeld[sig] = 0;
+
+} /* end of DiscardSignal */
+
+
 /* ChooseSignal:
  *
  * Choose which signal to pass to the ML handler and setup the ML state
diff --git a/base/runtime/mach-dep/unix-signal.c b/base/runtime/mach-dep/unix-signal.c
index 9607f5a..a8baf8f 100644
--- a/base/runtime/mach-dep/unix-signal.c
+++ b/base/runtime/mach-dep/unix-signal.c
@@ -68,9 +68,7 @@ void PauseUntilSignal (vproc_state_t *vsp)
  */
 void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState)
 {
-/* QUESTIONS:
- * If we disable a signal that has pending signals, should the pending
- * signals be discarded?
+/* QUESTION:
  * How do we keep track of the state of non-UNIX signals (e.g., GC).
  */
     switch (sigNum) {
@@ -97,6 +95,14 @@ void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState)
 	else Die ("SetSignalState: unknown signal %d\n", sigNum);
     } /* end of switch */
 
+    if (sigState != ML_SIG_ENABLED) {
+      /* the ML code has no handler for the pending occurrences, so discard them;
+       * restoreregs will notice, if other signals are still pending.
+       */
+	DiscardSignal (vsp, sigNum);
+	vsp->vp_handlerPending = FALSE;
+    }
+
 } /* end of SetSignalState */
 
 
@@ -215,7 +221,9 @@ sig, vsp->vp_inMLFlag, vsp->vp_handlerPending, vsp->vp_inSigHandler);
  */
 void SetSignalMask (ml_val_t sigList)
 {
+    vproc_state_t *vsp = SELF_VPROC;
     SigMask_t	mask;
+    bool_t	gcMasked = FALSE;
     int		i;
 
     SIG_ClearMask(mask);
@@ -227,12 +235,16 @@ void SetSignalMask (ml_val_t sigList)
 	    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
 		SIG_AddToMask(mask, SigInfo[i].id);
 	    }
+	    gcMasked = TRUE;
 	}
 	else {
 	    while (sigList != LIST_nil) {
 		ml_val_t	car = LIST_hd(sigList);
 		int		sig = REC_SELINT(car, 0);
-		SIG_AddToMask(mask, sig);
+		if (sig == RUNSIG_GC)
+		    gcMasked = TRUE;
+		else
+		    SIG_AddToMask(mask, sig);
 		sigList = LIST_tl(sigList);
 	    }
 	}
@@ -240,6 +252,23 @@ void SetSignalMask (ml_val_t sigList)
 
     SIG_SetMask(mask);
 
+  /* occurrences of masked signals that we have already received from the system
+   * must be held back until the signal is unmasked; restoreregs will notice, if
+   * other signals are still pending.
+   */
+    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
+	if (SIG_isSet(mask, SigInfo[i].id))
+	    HoldSignal (vsp, SigInfo[i].id);
+	else
+	    ReleaseSignal (vsp, SigInfo[i].id);
+    }
+    vsp->vp_gcSigMasked = gcMasked;
+    if (gcMasked)
+	HoldSignal (vsp, RUNSIG_GC);
+    else
+	ReleaseSignal (vsp, RUNSIG_GC);
+    vsp->vp_handlerPending = FALSE;
+
 } /* end of SetSignalMask */
 
 
-- 
2.43.0


From c1450444c98334c7c9dfcfe68b77892d6346dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:06 +0000
Subject: [PATCH 051/100] fix: the set of masked signals did not include the GC
 signal

---
 base/runtime/mach-dep/unix-signal.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/runtime/mach-dep/unix-signal.c b/base/runtime/mach-dep/unix-signal.c
index a8baf8f..a112241 100644
--- a/base/runtime/mach-dep/unix-signal.c
+++ b/base/runtime/mach-dep/unix-signal.c
@@ -292,14 +292,17 @@ ml_val_t GetSignalMask (ml_state_t *msp)
     for (i = 0, n = 0;  i < NUM_SYSTEM_SIGS;  i++) {
 	if (SIG_isSet(mask, SigInfo[i].id)) n++;
     }
+    if (msp->ml_vproc->vp_gcSigMasked) n++;
 
     if (n == 0)
 	return OPTION_NONE;
-    else if (n == NUM_SYSTEM_SIGS)
+    else if (n == NUM_SIGS)
 	sigList = LIST_nil;
     else {
-	for (i = 0, sigList = LIST_nil;  i < NUM_SYSTEM_SIGS;  i++) {
-	    if (SIG_isSet(mask, SigInfo[i].id)) {
+	for (i = 0, sigList = LIST_nil;  i < NUM_SIGS;  i++) {
+	    if ((SigInfo[i].id == RUNSIG_GC)
+		? msp->ml_vproc->vp_gcSigMasked
+		: SIG_isSet(mask, SigInfo[i].id)) {
 		name = ML_CString (msp, SigInfo[i].name);
 		REC_ALLOC2(msp, sig, INT_CtoML(SigInfo[i].id), name);
 		LIST_cons(msp, sigList, sig, sigList);
-- 
2.43.0


From c6dbaad53bcd29aa292b4b9b985ded73acb190a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:11 +0000
Subject: [PATCH 052/100] fix: an imported system did not restore its signal
 mask

---
 .../Basis/Implementation/NJ/internal-signals.sml   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/NJ/internal-signals.sml b/base/system/Basis/Implementation/NJ/internal-signals.sml
index d77486e..cf8eb15 100644
--- a/base/system/Basis/Implementation/NJ/internal-signals.sml
+++ b/base/system/Basis/Implementation/NJ/internal-signals.sml
@@ -135,9 +135,21 @@ fun getInfo sigId = (case (Array.sub(!sigTbl, sigId))
  ** are being lost, but there is no good way to do this right now.
  **)
 		  handle _ => ()
+	(* restore the process's signal mask; see the run-time system API below *)
+	  val setSigMask : CI.system_const list option -> unit = signalFn "setSigMask"
+	  fun isMasked (SIG sigId) = (case Array.sub(!sigTbl, #1 sigId)
+		 of SOME{mask, ...} => (mask > 0)
+		  | NONE => false
+		(* end case *))
 	  in
 	    resetList ();
-	    List.app copy oldList
+	    List.app copy oldList;
+	    case List.filter isMasked (!sigList)
+	     of [] => ()
+	      | masked => if (List.length masked = !numSigs)
+		  then setSigMask (SOME[])
+		  else setSigMask (SOME(List.map sigToConst masked))
+	    (* end case *)
 	  end
 
   (* signal masking. *)
-- 
2.43.0


From b0341bc66da0253aaf7208190c734a4ea683c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 053/100] fix: looking up a service by port passed the port in
 host byte order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..1a5c4c5 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons((unsigned short)REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 2e484d55f4049926db650983881f1c8280963116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 054/100] fix: looking up a network by address passed a pointer
 as the address family

---
 base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
index 09f94db..8a38e80 100644
--- a/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/getnetbyaddr.c
@@ -28,7 +28,7 @@ ml_val_t _ml_NetDB_getnetbyaddr (ml_state_t *msp, ml_val_t arg)
   return RAISE_ERROR(msp, "<getnetbyaddr not implemented>");
 #else
     unsigned long   net = REC_SELWORD(arg, 0);
-    int		    type = REC_SELINT(arg, 1);
+    int		    type = REC_SELINT(REC_SEL(arg, 1), 0);
 
     return _util_NetDB_mknetent (msp, getnetbyaddr(net, type));
 #endif
-- 
2.43.0


From 46fb6fbe2866aab83ac9933d60c4da5530a4d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 055/100] fix: a host name of the maximum length could not be
 read

---
 base/runtime/c-libs/smlnj-sockets/gethostname.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/gethostname.c b/base/runtime/c-libs/smlnj-sockets/gethostname.c
index 48e5558..dfe66be 100644
--- a/base/runtime/c-libs/smlnj-sockets/gethostname.c
+++ b/base/runtime/c-libs/smlnj-sockets/gethostname.c
@@ -26,12 +26,12 @@
  */
 ml_val_t _ml_NetDB_gethostname (ml_state_t *msp, ml_val_t arg)
 {
-    char	hostname[MAXHOSTNAMELEN];
+    char	hostname[MAXHOSTNAMELEN+1];
 
 /* NOTE: we could use `sysconf(_SC_HOST_NAME_MAX)` to determine the maximum
  * hostname length.
  */
-    if (gethostname (hostname, MAXHOSTNAMELEN) == -1) {
+    if (gethostname (hostname, sizeof(hostname)) == -1) {
 	return RAISE_SYSERR(msp, sts);
     } else {
 	return ML_CString(msp, hostname);
-- 
2.43.0


From 2b5bba04f6bcc3e2ab7677e48797b5d22004e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 056/100] fix: a failing query of the foreground process group
 returned -1

---
 base/runtime/c-libs/posix-tty/tcgetpgrp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetpgrp.c b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
index 9da3719..ba798e6 100644
--- a/base/runtime/c-libs/posix-tty/tcgetpgrp.c
+++ b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
@@ -18,7 +18,8 @@
 ml_val_t _ml_P_TTY_tcgetpgrp (ml_state_t *msp, ml_val_t arg)
 {
     int         fd = INT_MLtoC(arg);
+    int         pgrp = tcgetpgrp(fd);
 
-    return INT_CtoML(tcgetpgrp(fd));
+    CHK_RETURN(msp, pgrp)
 
 } /* end of _ml_P_TTY_tcgetpgrp */
-- 
2.43.0


From b54356a9b6d8d82ba6e359338b4b8af0e5c9cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 057/100] fix: reading the collection counters counted the
 current nursery again

---
 base/runtime/gc/init-gc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/runtime/gc/init-gc.c b/base/runtime/gc/init-gc.c
index edb99bd..b59adbf 100644
--- a/base/runtime/gc/init-gc.c
+++ b/base/runtime/gc/init-gc.c
@@ -379,8 +379,9 @@ void GetGCStats (ml_state_t *msp, gc_stats_t *statsOut)
 
     /* count the number of bytes allocated since the last GC or reset */
     Addr_t nbytesAlloc = (Addr_t)(msp->ml_allocPtr) - (Addr_t)(heap->allocBase);
-    CNTR_INCR(&(heap->numAlloc), nbytesAlloc);
-    statsOut->allocCnt = ROUND_COUNT(&heap->numAlloc);
+    cntr_t nAlloc = heap->numAlloc;
+    CNTR_INCR(&nAlloc, nbytesAlloc);
+    statsOut->allocCnt = ROUND_COUNT(&nAlloc);
 #ifdef COUNT_STORE_LIST
     statsOut->storeCnt = heap->numStores.cnt;
 #endif
-- 
2.43.0


From 092b063834a4a87d9e557aa5918cf6d6eb1e7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 058/100] fix: the time profile counted half of the ticks and
 left untagged values

---
 base/runtime/mach-dep/unix-prof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/mach-dep/unix-prof.c b/base/runtime/mach-dep/unix-prof.c
index 3ea3e7c..ea6a898 100644
--- a/base/runtime/mach-dep/unix-prof.c
+++ b/base/runtime/mach-dep/unix-prof.c
@@ -61,6 +61,6 @@ PVT SigReturn_t ProfSigHandler (int sig, SigInfo_t info, SigContext_t *scp)
     Word_t	*arr = GET_SEQ_DATAPTR(Word_t, ProfCntArray);
     int		indx = INT_MLtoC(DEREF(ProfCurrent));
 
-    arr[indx]++;
+    arr[indx] += 2;	/* the counters are tagged integers */
 
 } /* end of ProfSigHandler */
-- 
2.43.0


From 20ae7220ccb0a38bd4468c94fc804a6615a400f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 059/100] fix: lowering the virtual-memory cache level left
 freed memory in use

---
 base/runtime/c-libs/smlnj-runtime/gc-ctl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/gc-ctl.c b/base/runtime/c-libs/smlnj-runtime/gc-ctl.c
index 6994da3..79a9425 100644
--- a/base/runtime/c-libs/smlnj-runtime/gc-ctl.c
+++ b/base/runtime/c-libs/smlnj-runtime/gc-ctl.c
@@ -101,8 +101,11 @@ PVT void SetVMCache (ml_state_t *msp, ml_val_t arg)
     if (level < heap->cacheGen) {
       /* Free any cached memory objects. */
 	int i;
-	for (i = level;  i < heap->cacheGen;  i++) {
-	    MEM_FreeMemObj (heap->gen[i]->cacheObj);
+	for (i = level;  (i < heap->cacheGen) && (i < heap->numGens);  i++) {
+	    if (heap->gen[i]->cacheObj != NIL(mem_obj_t *)) {
+		MEM_FreeMemObj (heap->gen[i]->cacheObj);
+		heap->gen[i]->cacheObj = NIL(mem_obj_t *);
+	    }
         }
     }
 
-- 
2.43.0


From 428f4aca686c5cd105955d735713e539d50ee11a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:28 +0000
Subject: [PATCH 060/100] fix: constants larger than the allocation space
 overran it

String, vector, record and raw-data constants were always allocated in the
allocation space, which need not be large enough for them even when it is
empty (e.g., a 200Kb string literal with @SMLalloc=128k).  Allocate large
constants in the first generation.
---
 base/runtime/gc/build-literals.c | 108 +++++++++++++++++++++++--------
 1 file changed, 81 insertions(+), 27 deletions(-)

diff --git a/base/runtime/gc/build-literals.c b/base/runtime/gc/build-literals.c
index 0eff5db..d1f9a28 100644
--- a/base/runtime/gc/build-literals.c
+++ b/base/runtime/gc/build-literals.c
@@ -446,7 +446,7 @@ STATIC_INLINE double GetR64Arg (Byte_t *code)
 /* the amount of free space that we want in the allocation arena; this value must be
  * less than MIN_ALLOC_SZB (defined in include/ml-limits.h)
  */
-#define FREE_REQ_SZB    64*ONE_K
+#define FREE_REQ_SZB    (64*ONE_K)
 
 /* for backward compatibility */
 ml_val_t BuildLiteralsV1 (ml_state_t *msp, Byte_t *lits, int pc, int len);
@@ -457,6 +457,53 @@ ml_val_t BuildLiteralsV1 (ml_state_t *msp, Byte_t *lits, int pc, int len);
 #  define GC_MESSAGE
 #endif
 
+/* AllocLarge:
+ *
+ * Allocate an uninitialized object that is too large for the allocation space
+ * in the first generation; code, stk, and saved are extra roots.  Since we want to
+ * avoid pointers from the 1st generation record space into the allocation space, we
+ * always do a GC before allocating an object in that space, which means that the
+ * elements on the stack are safe to store in the object.
+ */
+PVT ml_val_t AllocLarge (
+    ml_state_t *msp, int arenaIndx, ml_val_t desc, Word_t nWords,
+    Byte_t **code, ml_val_t *stk, ml_val_t *saved)
+{
+    arena_t	*ap = msp->ml_heap->gen[0]->arena[arenaIndx];
+    Word_t	szb = WORD_SZB*(nWords + 1);
+    int		gcLevel = (arenaIndx == RECORD_INDX) ? 0 : -1;
+    ml_val_t	res;
+
+#ifdef ALIGN_REALDS
+    szb += WORD_SZB;  /* alignment padding */
+#endif
+    if (! isACTIVE(ap) || (AVAIL_SPACE(ap) <= szb+msp->ml_heap->allocSzB)) {
+	gcLevel = 1;
+    }
+    if (gcLevel >= 0) {
+	ap->reqSizeB += szb;
+	GC_MESSAGE
+	InvokeGCWithRoots (msp, gcLevel, (ml_val_t *)code, stk, saved, NIL(ml_val_t *));
+	ap->reqSizeB = 0;
+    }
+#ifdef ALIGN_REALDS
+  /* Force REALD_SZB alignment (descriptor is off by one word) */
+    if (arenaIndx == STRING_INDX) {
+	ap->nextw = (ml_val_t *)(((Addr_t)ap->nextw) | WORD_SZB);
+    }
+#endif
+    *(ap->nextw++) = desc;
+    res = PTR_CtoML(ap->nextw);
+    ap->nextw += nWords;
+    if (arenaIndx == RECORD_INDX) {
+	ap->sweep_nextw = ap->nextw;
+    }
+    CNTR_INCR(&msp->ml_heap->numAlloc1, szb);
+
+    return res;
+
+} /* end of AllocLarge */
+
 /* BuildLiterals:
  *
  * NOTE: we allocate all of the objects in the first generation, and allocate
@@ -479,6 +526,24 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
    */
     ml_val_t	saved;
 
+/* Allocate an object with the given number of words (not counting its descriptor)
+ * that requires spaceReq bytes; objects that might not fit into the allocation space
+ * are allocated in the first generation.  Note that the stack may be moved.
+ */
+#define ALLOC_OBJ(indx, desc, nWords)								\
+    do {											\
+	if (spaceReq > FREE_REQ_SZB) {								\
+	    res = AllocLarge (msp, indx, desc, nWords, &code, &stk, &saved);			\
+	    availSpace = ((size_t)msp->ml_limitPtr - (size_t)msp->ml_allocPtr) - CONS_SZB;	\
+	    spaceReq = WORD_SZB*3; /* sequence header */					\
+	}											\
+	else {											\
+	    GC_CHECK;										\
+	    ML_AllocWrite (msp, 0, desc);							\
+	    res = ML_Alloc (msp, nWords);							\
+	}											\
+    } while (0)
+
 /* A check that the available space is sufficient for the literal object that
  * we are about to allocate.  Note that the cons cell has already been accounted
  * for in availSpace (but not in spaceReq).
@@ -706,12 +771,9 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 	   * the sequence header object.
 	   */
 	    spaceReq = WORD_SZB*(ui+1+3);
-/* FIXME: for large strings, we should be allocating them in the 1st generation */
-	    GC_CHECK;
 	  /* allocate the data object */
-	    ML_AllocWrite(msp, 0, MAKE_DESC(ui, DTAG_raw));
-	    ML_AllocWrite (msp, ui, 0);  /* so word-by-word string equality works */
-	    res = ML_Alloc (msp, ui);
+	    ALLOC_OBJ (STRING_INDX, MAKE_DESC(ui, DTAG_raw), ui);
+	    PTR_MLtoC(ml_val_t, res)[ui-1] = 0;  /* so word-by-word string equality works */
 #ifdef DEBUG_LITERALS
 	SayDebug(" @ %p (%d words)\n", (void *)res, ui);
 #endif
@@ -736,18 +798,16 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 	    }
 	    else {
 		spaceReq = WORD_SZB*(arg.uArg+1);
-		GC_CHECK;
-		ML_AllocWrite(msp, 0, MAKE_DESC(arg.uArg, DTAG_record));
+		ALLOC_OBJ (RECORD_INDX, MAKE_DESC(arg.uArg, DTAG_record), arg.uArg);
 	    }
 	  /* top of stack is last element in record */
 	    for (ui = arg.uArg;  ui > 0;  ui--) {
-		ML_AllocWrite(msp, ui, LIST_hd(stk));
+		PTR_MLtoC(ml_val_t, res)[ui-1] = LIST_hd(stk);
 		stk = LIST_tl(stk);
 #ifdef DEBUG_LITERALS
 		depth--;
 #endif
 	    }
-	    res = ML_Alloc(msp, arg.uArg);
 #ifdef DEBUG_LITERALS
 	    SayDebug("...] @ %p\n", (void *)res);
 #endif
@@ -770,19 +830,16 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 	   * the sequence header object.
 	   */
 	    spaceReq = WORD_SZB*(arg.uArg + (1 + 3));
-/* FIXME: for large vectors, we should be allocating them in the 1st generation */
-	    GC_CHECK;
 	  /* allocate the data object */
-	    ML_AllocWrite(msp, 0, MAKE_DESC(arg.uArg, DTAG_vec_data));
+	    ALLOC_OBJ (RECORD_INDX, MAKE_DESC(arg.uArg, DTAG_vec_data), arg.uArg);
 	  /* top of stack is last element in vector */
 	    for (ui = arg.uArg;  ui > 0;  ui--) {
-		ML_AllocWrite(msp, ui, LIST_hd(stk));
+		PTR_MLtoC(ml_val_t, res)[ui-1] = LIST_hd(stk);
 		stk = LIST_tl(stk);
 #ifdef DEBUG_LITERALS
 		depth--;
 #endif
 	    }
-	    res = ML_Alloc(msp, arg.uArg);
 	  /* allocate the header object */
 	    SEQHDR_ALLOC(msp, res, DESC_polyvec, res, arg.uArg);
 #ifdef DEBUG_LITERALS
@@ -811,13 +868,10 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 #endif
 	    ASSERT(arg.uArg > 0);
 	    spaceReq = WORD_SZB*arg.uArg + WORD_SZB;
-/* FIXME: for large objects, we should be allocating them in the 1st generation */
-	    GC_CHECK;
-	    ML_AllocWrite (msp, 0, MAKE_DESC(arg.uArg, DTAG_raw));
-	    for (ui = 1;  ui <= arg.uArg;  ui++) {
-		ML_AllocWrite (msp, ui, (ml_val_t)GetRawArg(&(code[pc])));  pc += WORD_SZB;
+	    ALLOC_OBJ (STRING_INDX, MAKE_DESC(arg.uArg, DTAG_raw), arg.uArg);
+	    for (ui = 0;  ui < arg.uArg;  ui++) {
+		PTR_MLtoC(ml_val_t, res)[ui] = (ml_val_t)GetRawArg(&(code[pc]));  pc += WORD_SZB;
 	    }
-	    res = ML_Alloc (msp, arg.uArg);
 	    PUSH (res);
 	    availSpace -= spaceReq;
 	    break;
@@ -832,16 +886,16 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 #endif
 	    ASSERT(arg.uArg > 0);
 	    spaceReq = 8*(arg.uArg+1);
-/* FIXME: for large objects, we should be allocating them in the 1st generation */
-	    GC_CHECK;
 #ifdef ALIGN_REALDS
-	  /* Force REALD_SZB alignment (descriptor is off by one word) */
-	    msp->ml_allocPtr = (ml_val_t *)((Addr_t)(msp->ml_allocPtr) | WORD_SZB);
+	    if (spaceReq <= FREE_REQ_SZB) {
+	        GC_CHECK;
+	      /* Force REALD_SZB alignment (descriptor is off by one word) */
+	        msp->ml_allocPtr = (ml_val_t *)((Addr_t)(msp->ml_allocPtr) | WORD_SZB);
+	    }
 #endif
 	  /* ui is the number of words */
 	    ui = WORD64_SZW * arg.uArg;
-	    ML_AllocWrite (msp, 0, MAKE_DESC(ui, DTAG_raw64));
-	    res = ML_Alloc (msp, ui);
+	    ALLOC_OBJ (STRING_INDX, MAKE_DESC(ui, DTAG_raw64), ui);
 	    for (ui = 0;  ui < arg.uArg;  ui++) {
 		PTR_MLtoC(double, res)[ui] = GetR64Arg(&(code[pc]));
 		pc += 8;
-- 
2.43.0


From 23a2830c1fbcac7530f839bdbdde6be868ad3611 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 061/100] fix: building constants used a stale address after a
 collection

Allocating the table of saved constants can invoke the garbage collector (when
there are more than 512 of them), which moves the bytecode being interpreted.
---
 base/runtime/gc/build-literals.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/build-literals.c b/base/runtime/gc/build-literals.c
index d1f9a28..20bf8c4 100644
--- a/base/runtime/gc/build-literals.c
+++ b/base/runtime/gc/build-literals.c
@@ -595,7 +595,14 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 #endif
 
     if (maxSaved > 0) {
-	saved = ML_AllocArrayData (msp, maxSaved, ML_nil);
+      /* the allocation might invoke the garbage collector, so we use the code address
+       * as the initial value to be told where it is afterwards.
+       */
+	saved = ML_AllocArrayData (msp, maxSaved, PTR_CtoML(code));
+	code = PTR_MLtoC(Byte_t, PTR_MLtoC(ml_val_t, saved)[0]);
+	for (ui = 0;  ui < maxSaved;  ui++) {
+	    PTR_MLtoC(ml_val_t, saved)[ui] = ML_nil;
+	}
     }
     else {
 	saved = ML_nil;
-- 
2.43.0


From 91ef3f2dfd4bcc1bb5c72d3837ec0455d0a94f6f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 062/100] fix: a missing heap-option argument was ignored in
 the last position

The check for errors in the heap parameters is skipped for options without
their argument, so it must be repeated after the last argument.
---
 base/runtime/gc/init-gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/gc/init-gc.c b/base/runtime/gc/init-gc.c
index b59adbf..a8f6e41 100644
--- a/base/runtime/gc/init-gc.c
+++ b/base/runtime/gc/init-gc.c
@@ -115,6 +115,9 @@ heap_params_t *ParseHeapParams (char **argv)
 	    return NIL(heap_params_t *);
     } /* while */
 
+    if (errFlg)
+	return NIL(heap_params_t *);
+
     return params;
 
 } /* end of ParseHeapParams */
-- 
2.43.0


From 3bbed5c0b3027d9e4492e07f30dce638dc9e291c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 063/100] fix: sizes that do not fit into an integer were
 accepted

Options such as @SMLalloc=4096m overflowed and were taken for some other size;
reject them.
---
 base/runtime/kernel/ml-options.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/runtime/kernel/ml-options.c b/base/runtime/kernel/ml-options.c
index 5359ce1..b07d650 100644
--- a/base/runtime/kernel/ml-options.c
+++ b/base/runtime/kernel/ml-options.c
@@ -6,6 +6,7 @@
  */
 
 #include <ctype.h>
+#include <stdlib.h>
 #include "ml-base.h"
 #include "ml-options.h"
 
@@ -65,6 +66,9 @@ int GetSzOption (int scale, char *sz)
 	  default:
 	    return -1;
 	} /* end of switch */
+      /* the result must be representable */
+	if ((p - sz > 10) || (atoll(sz) > 0x7fffffff / scale))
+	    return -1;
 	return (scale * atoi(sz));
     }
 
-- 
2.43.0


From 1a8c4ee1ce5f225f31562d12822070f82a79f550 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 064/100] fix: truncated boot files were not detected

fread does not return -1 on errors, so a truncated file was loaded with
whatever the buffer contained.
---
 base/runtime/kernel/boot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/kernel/boot.c b/base/runtime/kernel/boot.c
index 8c99169..ad0d4ac 100644
--- a/base/runtime/kernel/boot.c
+++ b/base/runtime/kernel/boot.c
@@ -250,7 +250,7 @@ PVT void ReadBinFile (FILE *file, void *buf, int nbytes, const char *fname)
         bufc[i] = byte;
     }
 #else
-    if (fread(buf, nbytes, 1, file) == -1) {
+    if ((nbytes > 0) && (fread(buf, nbytes, 1, file) != 1)) {
         Die ("cannot read file \"%s\"", fname);
     }
 #endif
-- 
2.43.0


From aecebc6a3a99973a00eb97883c7af216ffa75b96 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 065/100] fix: bad boot lists were accepted or crashed

A boot list that cannot be opened now gives an exit status of 1 (as is the case
for the other boot files), and the first line is checked for its separator.
---
 base/runtime/kernel/boot.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/runtime/kernel/boot.c b/base/runtime/kernel/boot.c
index ad0d4ac..b90eae2 100644
--- a/base/runtime/kernel/boot.c
+++ b/base/runtime/kernel/boot.c
@@ -140,13 +140,15 @@ PVT ml_val_t BuildFileList (ml_state_t *msp, const char *bootlist, int *mbplp)
     ml_val_t    fileList;
 # define SIZE_BUF_LEN   128     /* this should be plenty for two numbers */
     char        sizeBuf[SIZE_BUF_LEN];
-    char        c;
+    int         c;
 
     numFiles = 0;
 
     listF = OpenBinFile (bootlist, FALSE);
-
-    if (listF != NULL) {
+    if (listF == NULL) {
+        Exit (1);
+    }
+    else {
         c = getc (listF);
         if (c == EOF) {
             Die ("bootlist file \"%s\" is empty", bootlist);
@@ -155,6 +157,9 @@ PVT ml_val_t BuildFileList (ml_state_t *msp, const char *bootlist, int *mbplp)
             if (fgets (sizeBuf, SIZE_BUF_LEN, listF) != NIL(char *)) {
               /* hardly any checking here... */
                 char *space = strchr (sizeBuf, ' ');
+                if (space == NULL) {
+                    Die ("malformed first line in \"%s\"", bootlist);
+                }
                 *space = '\0';
                 max_num_boot_files = strtoul(sizeBuf, NULL, 0);
                 max_boot_path_len = strtoul(space+1, NULL, 0) + 2;
-- 
2.43.0


From 87a1f9461c50b8772096a3b66685e540649edec4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:46:07 +0000
Subject: [PATCH 066/100] fix: booting overran a small allocation space with
 its file names

The list of boot files was built without checking for space, which fails for
@SMLalloc=128k.
---
 base/runtime/kernel/boot.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/base/runtime/kernel/boot.c b/base/runtime/kernel/boot.c
index b90eae2..07b6dd3 100644
--- a/base/runtime/kernel/boot.c
+++ b/base/runtime/kernel/boot.c
@@ -132,12 +132,12 @@ void BootML (const char *bootlist, heap_params_t *heapParams)
 PVT ml_val_t BuildFileList (ml_state_t *msp, const char *bootlist, int *mbplp)
 {
     FILE        *listF;
-    ml_val_t    *fileNames = NULL;
+    char        **fileNames = NULL;
     char        *nameBuf = NULL;
     int         max_num_boot_files = MAX_NUM_BOOT_FILES;
     int         max_boot_path_len = MAX_BOOT_PATH_LEN;
     int         i, j, numFiles;
-    ml_val_t    fileList;
+    ml_val_t    fileList, name;
 # define SIZE_BUF_LEN   128     /* this should be plenty for two numbers */
     char        sizeBuf[SIZE_BUF_LEN];
     int         c;
@@ -183,12 +183,14 @@ PVT ml_val_t BuildFileList (ml_state_t *msp, const char *bootlist, int *mbplp)
             Die ("unable to allocate space for boot file name table");
         }
 
-      /* read in the file names, converting them to ML strings. */
+      /* read in the file names */
         while (fgets (nameBuf, max_boot_path_len, listF) != NIL(char *)) {
             j = strlen(nameBuf)-1;
             if (nameBuf[j] == '\n') nameBuf[j] = '\0';  /* remove "\n" */
             if (numFiles < max_num_boot_files) {
-                fileNames[numFiles++] = ML_CString(msp, nameBuf);
+                if ((fileNames[numFiles++] = strdup(nameBuf)) == NULL) {
+                    Die ("unable to allocate space for boot file names");
+                }
             } else {
                 Die ("too many files\n");
             }
@@ -196,9 +198,15 @@ PVT ml_val_t BuildFileList (ml_state_t *msp, const char *bootlist, int *mbplp)
         fclose (listF);
     }
 
-  /* create the in-heap list */
+  /* create the in-heap list, converting the names to ML strings */
     for (fileList = LIST_nil, i = numFiles;  --i >= 0; ) {
-        LIST_cons(msp, fileList, fileNames[i], fileList);
+      /* the list can be larger than the allocation space */
+        if (NeedGC (msp, strlen(fileNames[i]) + REC_SZB(10))) {
+            InvokeGCWithRoots (msp, 0, &fileList, NIL(ml_val_t *));
+        }
+        name = ML_CString(msp, fileNames[i]);
+        LIST_cons(msp, fileList, name, fileList);
+        FREE (fileNames[i]);
     }
 
     /* these guys are no longer needed from now on */
-- 
2.43.0


From 9893dc3966e19f9aff95f2ef2dd406b638ab56e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 067/100] monitoring hooks: mkLiterals checks the space by
 itself

---
 base/runtime/gc/verif-hooks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/runtime/gc/verif-hooks.c b/base/runtime/gc/verif-hooks.c
index 9fe9749..dcbe891 100644
--- a/base/runtime/gc/verif-hooks.c
+++ b/base/runtime/gc/verif-hooks.c
@@ -103,6 +103,10 @@ void Verif_CallBegin (ml_state_t *msp, const char *name)
     CurFun = name;
     Mark = (Addr_t)(msp->ml_allocPtr);
     Granted = 8*ONE_K;	/* see REQ_CALLC in run-ml.c */
+    if (strcmp(name, "mkLiterals") == 0) {
+      /* this one looks at the limit itself */
+	Granted = (Addr_t)(msp->ml_limitPtr) - Mark;
+    }
 }
 
 void Verif_CallEnd (ml_state_t *msp, const char *name)
-- 
2.43.0


From e19edf5b7943014ee609203176da25eff53c9f0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:02:45 +0000
Subject: [PATCH 068/100] fix: tagging an integer overflowed

Word literals above 2^62 are tagged like integers; do the arithmetic unsigned,
since the overflow of a signed integer is undefined in C.
---
 base/runtime/include/ml-values.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-values.h b/base/runtime/include/ml-values.h
index 7f9d9cc..2848f7f 100644
--- a/base/runtime/include/ml-values.h
+++ b/base/runtime/include/ml-values.h
@@ -38,7 +38,7 @@
 #endif
 
 #define INT_MLtoC(n)		(((Int_t)(n)) >> 1)
-#define INT_CtoML(n)		((ml_val_t)(2*(Int_t)(n) + 1))
+#define INT_CtoML(n)		((ml_val_t)(2*(Word_t)(Int_t)(n) + 1))
 #define PTR_MLtoC(ty,p)		PTR_CAST(ty *, p)
 #define PTR_CtoML(p)		PTR_CAST(ml_val_t, p)
 #else
-- 
2.43.0


From 57b571f0d08033737bc06f680dcdec3135b406e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 069/100] fix: Int32.abs did not check for overflow

---
 base/system/smlnj/init/target64-inline.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/smlnj/init/target64-inline.sml b/base/system/smlnj/init/target64-inline.sml
index 809777a..e69ef03 100644
--- a/base/system/smlnj/init/target64-inline.sml
+++ b/base/system/smlnj/init/target64-inline.sml
@@ -191,6 +191,7 @@ structure InlineT =
         val op div  : int32 * int32 -> int32  = i32chk InLine.int32_div
         val op mod  : int32 * int32 -> int32  = InLine.int32_mod
         val ~       : int32 -> int32          = i32chk InLine.int32_neg
+        val abs     : int32 -> int32          = i32chk InLine.int32_abs
         val op <    : int32 * int32 -> bool   = InLine.int32_lt
         val op <=   : int32 * int32 -> bool   = InLine.int32_le
         val op >    : int32 * int32 -> bool   = InLine.int32_gt
@@ -201,7 +202,6 @@ structure InlineT =
 
         val min     : int32 * int32 -> int32  = InLine.int32_min
         val max     : int32 * int32 -> int32  = InLine.int32_max
-        val abs     : int32 -> int32          = InLine.int32_abs
       end
 
     structure Int64 =
-- 
2.43.0


From f22ca7ce22e8f6e9a677e18dee309b323657e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:28 +0000
Subject: [PATCH 070/100] fix: IntInf.fmt HEX used lower-case digits

---
 base/system/Basis/Implementation/int-inf.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/int-inf.sml b/base/system/Basis/Implementation/int-inf.sml
index a2b5288..4e68dfc 100644
--- a/base/system/Basis/Implementation/int-inf.sml
+++ b/base/system/Basis/Implementation/int-inf.sml
@@ -166,7 +166,7 @@ structure IntInfImp :> INT_INF = struct
     end
 
     fun fmt StringCvt.OCT = bitfmt (0w3, 0wx7, "01234567")
-      | fmt StringCvt.HEX = bitfmt (0w4, 0wxf, "0123456789abcdef")
+      | fmt StringCvt.HEX = bitfmt (0w4, 0wxf, "0123456789ABCDEF")
       | fmt StringCvt.BIN = bitfmt (0w1, 0wx1, "01")
       | fmt StringCvt.DEC = decfmt
 
-- 
2.43.0


From 7be3b70065bb12fb7e6c869a157a2003ccbacd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:28 +0000
Subject: [PATCH 071/100] fix: scanning did not skip all white space

---
 base/system/Basis/Implementation/pre-basis.sml | 3 +++
 base/system/Basis/Implementation/scan-util.sml | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/pre-basis.sml b/base/system/Basis/Implementation/pre-basis.sml
index 49e93d2..21b57fa 100644
--- a/base/system/Basis/Implementation/pre-basis.sml
+++ b/base/system/Basis/Implementation/pre-basis.sml
@@ -46,6 +46,9 @@ structure PreBasis =
 	  fun isWS (#" ") = true
 	    | isWS (#"\t") = true
 	    | isWS (#"\n") = true
+	    | isWS (#"\v") = true
+	    | isWS (#"\f") = true
+	    | isWS (#"\r") = true
 	    | isWS _ = false
 	  fun lp cs = (case (getc cs)
 		 of (SOME(c, cs')) => if (isWS c) then lp cs' else cs
diff --git a/base/system/Basis/Implementation/scan-util.sml b/base/system/Basis/Implementation/scan-util.sml
index 5e34344..1ea5f70 100644
--- a/base/system/Basis/Implementation/scan-util.sml
+++ b/base/system/Basis/Implementation/scan-util.sml
@@ -60,7 +60,7 @@ structure ScanUtil : sig
    * characters map to 255.
    *)
     val cvtTable = "\
-	  \\255\255\255\255\255\255\255\255\255\128\128\255\255\255\255\255\
+	  \\255\255\255\255\255\255\255\255\255\128\128\128\128\128\255\255\
 	  \\255\255\255\255\255\255\255\255\255\255\255\255\255\255\255\255\
 	  \\128\255\255\255\255\255\255\255\255\255\255\129\255\130\131\255\
 	  \\000\001\002\003\004\005\006\007\008\009\255\255\255\255\255\255\
-- 
2.43.0


From 7ea222dbfd2a6867adf816fe61095e1577e7dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 072/100] fix: ASDL C++ streams delivered a byte past the end
 of input

---
 asdl/src/lib/cpp/include/asdl/asdl-stream.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp b/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp
index 04099a3..40523dd 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp
@@ -113,16 +113,18 @@ public:
     }
 
     char getc () {
+        int c = this->_is->get();
         if (this->_is->good()) {
-            return this->_is->get();
+            return static_cast<char>(c);
         } else {
             this->invalidIOState (this->_is->rdstate());
         }
     }
     unsigned char getb ()
     {
+        int c = this->_is->get();
         if (this->_is->good()) {
-            return static_cast<unsigned char>(this->_is->get());
+            return static_cast<unsigned char>(c);
         } else {
             this->invalidIOState (this->_is->rdstate());
         }
-- 
2.43.0


From c39a5e0d3c034ee9d9e6bc779d2a228587bdbf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 073/100] fix: moving ASDL C++ streams leaked the old stream
 and lost the name

---
 asdl/src/lib/cpp/include/asdl/asdl-stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp b/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp
index 40523dd..88629f5 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl-stream.hpp
@@ -35,6 +35,7 @@ public:
     outstream &operator= (outstream &&rhs) noexcept
     {
         if (this != &rhs) {
+            delete this->_os;
             this->_os = rhs._os;
             rhs._os = nullptr;
         }
@@ -93,12 +94,15 @@ public:
   // move operations
     instream (instream &&is) noexcept
     {
+        this->_name = std::move(is._name);
         this->_is = is._is;
         is._is = nullptr;
     }
     instream &operator= (instream &&rhs) noexcept
     {
         if (this != &rhs) {
+            delete this->_is;
+            this->_name = std::move(rhs._name);
             this->_is = rhs._is;
             rhs._is = nullptr;
         }
-- 
2.43.0


From 4df979eb247e744edafbadb30c34f66bc8c32e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 074/100] fix: ASDL C++ tags were not read as they were written

---
 asdl/src/lib/cpp/include/asdl/asdl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asdl/src/lib/cpp/include/asdl/asdl.hpp b/asdl/src/lib/cpp/include/asdl/asdl.hpp
index a84ec49..17d8b1d 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl.hpp
@@ -55,7 +55,7 @@ namespace asdl {
     }
     inline void write_tag (outstream & os, unsigned int ui)
     {
-	write_uint(os, ui + 1);
+	write_uint(os, ui);
     }
     void write_string (outstream & os, std::string const & s);
     void write_integer (outstream & os, integer const & i);
@@ -232,7 +232,7 @@ namespace asdl {
     }
     inline std::optional<unsigned int> read_tag_option (instream & is)
     {
-	unsigned int v = read_tag8(is);
+	unsigned int v = read_tag(is);
 	if (v == 0) {
 	    return std::optional<unsigned int>();
 	} else {
-- 
2.43.0


From 3aa42d1abdcdd5eee57bd19d8d7661d4eae1a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 075/100] fix: ASDL C++ string and integer options were written
 without their tag

---
 asdl/src/lib/cpp/include/asdl/asdl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asdl/src/lib/cpp/include/asdl/asdl.hpp b/asdl/src/lib/cpp/include/asdl/asdl.hpp
index 17d8b1d..4f581fc 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl.hpp
@@ -116,6 +116,7 @@ namespace asdl {
     inline void write_integer_option (outstream & os, std::optional<integer> const & optB)
     {
 	if (optB.has_value()) {
+	    write_tag8 (os, 1);
 	    write_integer (os, optB.value());
 	} else {
 	    write_tag8 (os, 0);
@@ -124,6 +125,7 @@ namespace asdl {
     inline void write_string_option (outstream & os, std::optional<std::string> const & optB)
     {
 	if (optB.has_value()) {
+	    write_tag8 (os, 1);
 	    write_string (os, optB.value());
 	} else {
 	    write_tag8 (os, 0);
-- 
2.43.0


From 2af3e2a59354b27087563b3617fcf1270cf9d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 076/100] fix: ASDL C++ integers with a first digit of two were
 misread

---
 asdl/src/lib/cpp/asdl-integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index 43f883e..bd0a0d0 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -86,7 +86,7 @@ namespace asdl {
 	else if (b > 0xf) firstBits = 5;
 	else if (b > 0x7) firstBits = 4;
 	else if (b > 0x3) firstBits = 3;
-	else if (b > 0x2) firstBits = 2;
+	else if (b > 0x1) firstBits = 2;
 	else if (b > 0x0) firstBits = 1;
 	else firstBits = 0;
 
-- 
2.43.0


From 08fe5e4a6443d1f6002dee48e81be837afe477f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 077/100] fix: the default ASDL C++ integer differed from zero

---
 asdl/src/lib/cpp/include/asdl/asdl-integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp b/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp
index 853fb07..cce24a3 100644
--- a/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp
+++ b/asdl/src/lib/cpp/include/asdl/asdl-integer.hpp
@@ -27,7 +27,7 @@ namespace asdl {
 #if defined(ASDL_USE_GNU_MP)
 	integer () { mpz_init(this->_rep); }
 #else
-	integer () : _sign(false), _digits{0} { }
+	integer () : _sign(false), _digits{} { }
 #endif
 	integer (int32_t a);
 	integer (uint32_t a);
-- 
2.43.0


From bd099dc8ebd56d20f3232b9e19f622605f301162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 078/100] fix: ASDL C++ integers overflowed on the smallest
 numbers

---
 asdl/src/lib/cpp/asdl-integer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index bd0a0d0..c8e4acd 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -29,7 +29,7 @@ namespace asdl {
     integer::integer (int32_t n)
       : _sign(n < 0)
     {
-	if (n != 0) this->_digits.push_back (static_cast<uint32_t>(abs(n)));
+	if (n != 0) this->_digits.push_back (n < 0 ? -static_cast<uint32_t>(n) : static_cast<uint32_t>(n));
     }
 
     integer::integer (uint64_t n)
@@ -50,7 +50,7 @@ namespace asdl {
       : _sign(n < 0)
     {
 	if (n != 0) {
-	    uint64_t ui = static_cast<uint64_t>(std::abs(n));
+	    uint64_t ui = n < 0 ? -static_cast<uint64_t>(n) : static_cast<uint64_t>(n);
 	    if (ui < 0x100000000) {
 		this->_digits.push_back(uint32_t(ui));
 	    }
@@ -149,7 +149,7 @@ namespace asdl {
 	}
 	else if (this->_sign) {
 	    if (this->_digits[0] <= 0x80000000) {
-		n = - static_cast<int32_t>(this->_digits[0]);
+		n = static_cast<int32_t>(-this->_digits[0]);
 		return false;
 	    }
 	    else {
@@ -185,7 +185,7 @@ namespace asdl {
 	    if (this->_sign) {
 	      // negative number
 		if (un <= 0x8000000000000000) {
-		    n = - static_cast<int64_t>(un);
+		    n = static_cast<int64_t>(-un);
 		    return false;
 		}
 	    }
-- 
2.43.0


From 87cad45a3424336946846e201805b50193c39530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:41 +0000
Subject: [PATCH 079/100] fix: ASDL C++ integers were not written at all

---
 asdl/src/lib/cpp/asdl-integer.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index c8e4acd..ff5ad8a 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -63,7 +63,32 @@ namespace asdl {
 
     void integer::write (outstream & os) const
     {
-/* FIXME */
+      // collect the 7-bit digits from least to most significant
+	std::vector<unsigned char> bytes;
+	uint64_t acc = 0;
+	int nbits = 0;
+	for (auto it = this->_digits.crbegin();  it != this->_digits.crend();  ++it) {
+	    acc |= static_cast<uint64_t>(*it) << nbits;
+	    for (nbits += 32;  nbits >= 7;  nbits -= 7) {
+		bytes.push_back(acc & 0x7f);
+		acc >>= 7;
+	    }
+	}
+	bytes.push_back(acc & 0x7f);
+	while ((bytes.size() > 1) && (bytes.back() == 0)) {
+	    bytes.pop_back();
+	}
+      // the first byte only has six bits, because it also holds the sign
+	if (bytes.back() > 0x3f) {
+	    bytes.push_back(0);
+	}
+	if (this->_sign) {
+	    bytes.back() |= 0x40;
+	}
+	for (size_t i = bytes.size() - 1;  i > 0;  --i) {
+	    os.putb (bytes[i] | 0x80);
+	}
+	os.putb (bytes[0]);
     }
 
     integer::integer (instream &is)
-- 
2.43.0


From 89d9ba795495972f0d71fcf7664c38fe1ef57a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 080/100] fix: ASDL C++ integers lost the top bits of some
 first digits

---
 asdl/src/lib/cpp/asdl-integer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/asdl/src/lib/cpp/asdl-integer.cpp b/asdl/src/lib/cpp/asdl-integer.cpp
index ff5ad8a..5dc60a2 100644
--- a/asdl/src/lib/cpp/asdl-integer.cpp
+++ b/asdl/src/lib/cpp/asdl-integer.cpp
@@ -125,9 +125,17 @@ namespace asdl {
 	  // the number of bits available in the current digit
 	    uint32_t availBits = nbits % 32;
 	    if (availBits == 0) { availBits = 32; }
-	  // initialize the current result digit to the first byte
+	  // initialize the current result digit to the first byte, which may
+	  // itself be split between two digits
 	    uint32_t w = digits[0];
-	    availBits -= firstBits;
+	    if (availBits < firstBits) {
+		uint32_t excessBits = firstBits - availBits;
+		this->_digits.push_back(w >> excessBits);
+		availBits = 32 - excessBits;
+		w &= (1 << excessBits) - 1;
+	    } else {
+		availBits -= firstBits;
+	    }
 	    int idx = 1;
 	    while (idx < digits.size()) {
 		b = digits[idx];
-- 
2.43.0


From c4f88eb95fdc0fd71e9441ab7448bde5d3e443af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:52 +0000
Subject: [PATCH 081/100] fix: asdlgen gave C++ constructors a second copy of
 the attributes

---
 asdl/src/asdlgen/back-end/cpp/gen-pickle.sml | 2 +-
 asdl/src/asdlgen/back-end/cpp/gen-types.sml  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asdl/src/asdlgen/back-end/cpp/gen-pickle.sml b/asdl/src/asdlgen/back-end/cpp/gen-pickle.sml
index 4212bab..e5968b9 100644
--- a/asdl/src/asdlgen/back-end/cpp/gen-pickle.sml
+++ b/asdl/src/asdlgen/back-end/cpp/gen-pickle.sml
@@ -447,7 +447,7 @@ structure GenPickle : sig
                 val payload = E.prefixWithAttribs(attribs, optArg)
               (* destructor *)
                 val destr = CL.mkDestrDcl(name,
-                      case (#arenaAlloc flgs, payload)
+                      case (#arenaAlloc flgs, optArg)
                        of (false, SOME obj) => CL.mkBlock(deleteStms obj)
                         | _ => CL.mkBlock[]
                       (* end case *))
diff --git a/asdl/src/asdlgen/back-end/cpp/gen-types.sml b/asdl/src/asdlgen/back-end/cpp/gen-types.sml
index 96cacf9..aed505c 100644
--- a/asdl/src/asdlgen/back-end/cpp/gen-types.sml
+++ b/asdl/src/asdlgen/back-end/cpp/gen-types.sml
@@ -241,7 +241,7 @@ structure GenTypes : sig
 			      pickleMeth ::
 			      addCode (ConV.getPublicCode id, accessMeths),
 			    protected = addCode (ConV.getProtectedCode id, []),
-			    private = addCode (ConV.getPrivateCode id, List.map genField fields)
+			    private = addCode (ConV.getPrivateCode id, List.map genField extra)
 			  } :: dcls
 		      end
 		in
@@ -292,8 +292,8 @@ structure GenTypes : sig
 	  val dcls = (case !def
 		 of AST.EnumTy cons =>
 		      genEnumClass cons @ dcls
-		  | AST.SumTy{attribs, cons=[AST.Constr{id, fields, ...}]} =>
-		      genProdClass (tyId, attribs@fields) :: dcls
+		  | AST.SumTy{cons=[AST.Constr{id, fields, ...}], ...} =>
+		      genProdClass (tyId, fields) :: dcls
 		  | AST.SumTy{attribs, cons} =>
 		      genBaseClass (tyId, attribs, cons) ::
 		      List.foldr (genConsClass attribs) dcls cons
-- 
2.43.0


From 709a6829e6bc20795ba9b944bcf978f0057db6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 082/100] fix: PackReal64Big and PackReal64Little had their
 byte orders swapped

The bits of the real are taken as a word, so the order of the host does
not matter; on little-endian hosts each structure used the order of the
other.
---
 .../Basis/Implementation/pack-real64-big.sml  | 142 ++++++------------
 .../Implementation/pack-real64-little.sml     | 142 ++++++------------
 2 files changed, 86 insertions(+), 198 deletions(-)

diff --git a/base/system/Basis/Implementation/pack-real64-big.sml b/base/system/Basis/Implementation/pack-real64-big.sml
index 7e72c64..b9b2f1f 100644
--- a/base/system/Basis/Implementation/pack-real64-big.sml
+++ b/base/system/Basis/Implementation/pack-real64-big.sml
@@ -38,27 +38,14 @@ structure PackReal64Big : PACK_REAL =
           val bv = createW8Vec bytesPerElem
           fun update (i, w) = BV.update (bv, i, InlineT.Word8.fromLarge w)
           in
-            if InlineT.isBigEndian()
-              then (
-                (* big -> big *)
-                update (0, W64.rshiftl(w, 0w56));
-                update (1, W64.rshiftl(w, 0w48));
-                update (2, W64.rshiftl(w, 0w40));
-                update (3, W64.rshiftl(w, 0w32));
-                update (4, W64.rshiftl(w, 0w24));
-                update (5, W64.rshiftl(w, 0w16));
-                update (6, W64.rshiftl(w, 0w8));
-                update (7, w))
-              else (
-                (* little -> big *)
-                update (7, W64.rshiftl(w, 0w56));
-                update (6, W64.rshiftl(w, 0w48));
-                update (5, W64.rshiftl(w, 0w40));
-                update (4, W64.rshiftl(w, 0w32));
-                update (3, W64.rshiftl(w, 0w24));
-                update (2, W64.rshiftl(w, 0w16));
-                update (1, W64.rshiftl(w, 0w8));
-                update (0, w));
+            update (0, W64.rshiftl(w, 0w56));
+            update (1, W64.rshiftl(w, 0w48));
+            update (2, W64.rshiftl(w, 0w40));
+            update (3, W64.rshiftl(w, 0w32));
+            update (4, W64.rshiftl(w, 0w24));
+            update (5, W64.rshiftl(w, 0w16));
+            update (6, W64.rshiftl(w, 0w8));
+            update (7, w);
             bv
           end
 
@@ -66,25 +53,15 @@ structure PackReal64Big : PACK_REAL =
 	  then raise Subscript
 	  else let
             fun get i = InlineT.Word8.toLarge(BV.sub(bv, i))
-            val w = if InlineT.isBigEndian()
-                  then (* big -> big *)
-                    W64.orb(W64.lshift(get 0, 0w56),
-                    W64.orb(W64.lshift(get 1, 0w48),
-                    W64.orb(W64.lshift(get 2, 0w40),
-                    W64.orb(W64.lshift(get 3, 0w32),
-                    W64.orb(W64.lshift(get 4, 0w24),
-                    W64.orb(W64.lshift(get 5, 0w16),
-                    W64.orb(W64.lshift(get 6, 0w8),
-                    get 7)))))))
-                  else (* big -> little *)
-                    W64.orb(W64.lshift(get 7, 0w56),
-                    W64.orb(W64.lshift(get 6, 0w48),
-                    W64.orb(W64.lshift(get 5, 0w40),
-                    W64.orb(W64.lshift(get 4, 0w32),
-                    W64.orb(W64.lshift(get 3, 0w24),
-                    W64.orb(W64.lshift(get 2, 0w16),
-                    W64.orb(W64.lshift(get 1, 0w8),
-                    get 0)))))))
+            val w =
+                  W64.orb(W64.lshift(get 0, 0w56),
+                  W64.orb(W64.lshift(get 1, 0w48),
+                  W64.orb(W64.lshift(get 2, 0w40),
+                  W64.orb(W64.lshift(get 3, 0w32),
+                  W64.orb(W64.lshift(get 4, 0w24),
+                  W64.orb(W64.lshift(get 5, 0w16),
+                  W64.orb(W64.lshift(get 6, 0w8),
+                  get 7)))))))
             in
               fromBits w
             end
@@ -98,25 +75,15 @@ structure PackReal64Big : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BV.sub(bv, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* big -> big *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
-                        else (* big -> little *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 0, 0w56),
+                        W64.orb(W64.lshift(get 1, 0w48),
+                        W64.orb(W64.lshift(get 2, 0w40),
+                        W64.orb(W64.lshift(get 3, 0w32),
+                        W64.orb(W64.lshift(get 4, 0w24),
+                        W64.orb(W64.lshift(get 5, 0w16),
+                        W64.orb(W64.lshift(get 6, 0w8),
+                        get 7)))))))
                   in
                     fromBits w
                   end
@@ -131,25 +98,15 @@ structure PackReal64Big : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BA.sub(ba, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* big -> big *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
-                        else (* big -> little *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 0, 0w56),
+                        W64.orb(W64.lshift(get 1, 0w48),
+                        W64.orb(W64.lshift(get 2, 0w40),
+                        W64.orb(W64.lshift(get 3, 0w32),
+                        W64.orb(W64.lshift(get 4, 0w24),
+                        W64.orb(W64.lshift(get 5, 0w16),
+                        W64.orb(W64.lshift(get 6, 0w8),
+                        get 7)))))))
                   in
                     fromBits w
                   end
@@ -166,27 +123,14 @@ structure PackReal64Big : PACK_REAL =
                   fun update (i, w) = BA.update (ba, base ++ i, InlineT.Word8.fromLarge w)
                   val w = toBits r
                   in
-                    if InlineT.isBigEndian()
-                      then (
-                        (* big -> big *)
-                        update (0, W64.rshiftl(w, 0w56));
-                        update (1, W64.rshiftl(w, 0w48));
-                        update (2, W64.rshiftl(w, 0w40));
-                        update (3, W64.rshiftl(w, 0w32));
-                        update (4, W64.rshiftl(w, 0w24));
-                        update (5, W64.rshiftl(w, 0w16));
-                        update (6, W64.rshiftl(w, 0w8));
-                        update (7, w))
-                      else (
-                        (* little -> big *)
-                        update (7, W64.rshiftl(w, 0w56));
-                        update (6, W64.rshiftl(w, 0w48));
-                        update (5, W64.rshiftl(w, 0w40));
-                        update (4, W64.rshiftl(w, 0w32));
-                        update (3, W64.rshiftl(w, 0w24));
-                        update (2, W64.rshiftl(w, 0w16));
-                        update (1, W64.rshiftl(w, 0w8));
-                        update (0, w))
+                    update (0, W64.rshiftl(w, 0w56));
+                    update (1, W64.rshiftl(w, 0w48));
+                    update (2, W64.rshiftl(w, 0w40));
+                    update (3, W64.rshiftl(w, 0w32));
+                    update (4, W64.rshiftl(w, 0w24));
+                    update (5, W64.rshiftl(w, 0w16));
+                    update (6, W64.rshiftl(w, 0w8));
+                    update (7, w)
                   end
             end
 
diff --git a/base/system/Basis/Implementation/pack-real64-little.sml b/base/system/Basis/Implementation/pack-real64-little.sml
index 02a221f..1387eca 100644
--- a/base/system/Basis/Implementation/pack-real64-little.sml
+++ b/base/system/Basis/Implementation/pack-real64-little.sml
@@ -38,27 +38,14 @@ structure PackReal64Little : PACK_REAL =
           val bv = createW8Vec bytesPerElem
           fun update (i, w) = BV.update (bv, i, InlineT.Word8.fromLarge w)
           in
-            if InlineT.isBigEndian()
-              then (
-                (* big -> little *)
-                update (7, W64.rshiftl(w, 0w56));
-                update (6, W64.rshiftl(w, 0w48));
-                update (5, W64.rshiftl(w, 0w40));
-                update (4, W64.rshiftl(w, 0w32));
-                update (3, W64.rshiftl(w, 0w24));
-                update (2, W64.rshiftl(w, 0w16));
-                update (1, W64.rshiftl(w, 0w8));
-                update (0, w))
-              else (
-                (* little -> little *)
-                update (0, W64.rshiftl(w, 0w56));
-                update (1, W64.rshiftl(w, 0w48));
-                update (2, W64.rshiftl(w, 0w40));
-                update (3, W64.rshiftl(w, 0w32));
-                update (4, W64.rshiftl(w, 0w24));
-                update (5, W64.rshiftl(w, 0w16));
-                update (6, W64.rshiftl(w, 0w8));
-                update (7, w));
+            update (7, W64.rshiftl(w, 0w56));
+            update (6, W64.rshiftl(w, 0w48));
+            update (5, W64.rshiftl(w, 0w40));
+            update (4, W64.rshiftl(w, 0w32));
+            update (3, W64.rshiftl(w, 0w24));
+            update (2, W64.rshiftl(w, 0w16));
+            update (1, W64.rshiftl(w, 0w8));
+            update (0, w);
             bv
           end
 
@@ -66,25 +53,15 @@ structure PackReal64Little : PACK_REAL =
 	  then raise Subscript
 	  else let
             fun get i = InlineT.Word8.toLarge(BV.sub(bv, i))
-            val w = if InlineT.isBigEndian()
-                  then (* little -> big *)
-                    W64.orb(W64.lshift(get 7, 0w56),
-                    W64.orb(W64.lshift(get 6, 0w48),
-                    W64.orb(W64.lshift(get 5, 0w40),
-                    W64.orb(W64.lshift(get 4, 0w32),
-                    W64.orb(W64.lshift(get 3, 0w24),
-                    W64.orb(W64.lshift(get 2, 0w16),
-                    W64.orb(W64.lshift(get 1, 0w8),
-                    get 0)))))))
-                  else (* little -> little *)
-                    W64.orb(W64.lshift(get 0, 0w56),
-                    W64.orb(W64.lshift(get 1, 0w48),
-                    W64.orb(W64.lshift(get 2, 0w40),
-                    W64.orb(W64.lshift(get 3, 0w32),
-                    W64.orb(W64.lshift(get 4, 0w24),
-                    W64.orb(W64.lshift(get 5, 0w16),
-                    W64.orb(W64.lshift(get 6, 0w8),
-                    get 7)))))))
+            val w =
+                  W64.orb(W64.lshift(get 7, 0w56),
+                  W64.orb(W64.lshift(get 6, 0w48),
+                  W64.orb(W64.lshift(get 5, 0w40),
+                  W64.orb(W64.lshift(get 4, 0w32),
+                  W64.orb(W64.lshift(get 3, 0w24),
+                  W64.orb(W64.lshift(get 2, 0w16),
+                  W64.orb(W64.lshift(get 1, 0w8),
+                  get 0)))))))
             in
               fromBits w
             end
@@ -98,25 +75,15 @@ structure PackReal64Little : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BV.sub(bv, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* little -> big *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
-                        else (* little -> little *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 7, 0w56),
+                        W64.orb(W64.lshift(get 6, 0w48),
+                        W64.orb(W64.lshift(get 5, 0w40),
+                        W64.orb(W64.lshift(get 4, 0w32),
+                        W64.orb(W64.lshift(get 3, 0w24),
+                        W64.orb(W64.lshift(get 2, 0w16),
+                        W64.orb(W64.lshift(get 1, 0w8),
+                        get 0)))))))
                   in
                     fromBits w
                   end
@@ -131,25 +98,15 @@ structure PackReal64Little : PACK_REAL =
 		then raise Subscript
 		else let
                   fun get i = InlineT.Word8.toLarge(BA.sub(ba, base ++ i))
-                  val w = if InlineT.isBigEndian()
-                        then (* little -> big *)
-                          W64.orb(W64.lshift(get 7, 0w56),
-                          W64.orb(W64.lshift(get 6, 0w48),
-                          W64.orb(W64.lshift(get 5, 0w40),
-                          W64.orb(W64.lshift(get 4, 0w32),
-                          W64.orb(W64.lshift(get 3, 0w24),
-                          W64.orb(W64.lshift(get 2, 0w16),
-                          W64.orb(W64.lshift(get 1, 0w8),
-                          get 0)))))))
-                        else (* little -> little *)
-                          W64.orb(W64.lshift(get 0, 0w56),
-                          W64.orb(W64.lshift(get 1, 0w48),
-                          W64.orb(W64.lshift(get 2, 0w40),
-                          W64.orb(W64.lshift(get 3, 0w32),
-                          W64.orb(W64.lshift(get 4, 0w24),
-                          W64.orb(W64.lshift(get 5, 0w16),
-                          W64.orb(W64.lshift(get 6, 0w8),
-                          get 7)))))))
+                  val w =
+                        W64.orb(W64.lshift(get 7, 0w56),
+                        W64.orb(W64.lshift(get 6, 0w48),
+                        W64.orb(W64.lshift(get 5, 0w40),
+                        W64.orb(W64.lshift(get 4, 0w32),
+                        W64.orb(W64.lshift(get 3, 0w24),
+                        W64.orb(W64.lshift(get 2, 0w16),
+                        W64.orb(W64.lshift(get 1, 0w8),
+                        get 0)))))))
                   in
                     fromBits w
                   end
@@ -166,27 +123,14 @@ structure PackReal64Little : PACK_REAL =
                   fun update (i, w) = BA.update (ba, base ++ i, InlineT.Word8.fromLarge w)
                   val w = toBits r
                   in
-                    if InlineT.isBigEndian()
-                      then (
-                        (* big -> little *)
-                        update (7, W64.rshiftl(w, 0w56));
-                        update (6, W64.rshiftl(w, 0w48));
-                        update (5, W64.rshiftl(w, 0w40));
-                        update (4, W64.rshiftl(w, 0w32));
-                        update (3, W64.rshiftl(w, 0w24));
-                        update (2, W64.rshiftl(w, 0w16));
-                        update (1, W64.rshiftl(w, 0w8));
-                        update (0, w))
-                      else (
-                        (* little -> little *)
-                        update (0, W64.rshiftl(w, 0w56));
-                        update (1, W64.rshiftl(w, 0w48));
-                        update (2, W64.rshiftl(w, 0w40));
-                        update (3, W64.rshiftl(w, 0w32));
-                        update (4, W64.rshiftl(w, 0w24));
-                        update (5, W64.rshiftl(w, 0w16));
-                        update (6, W64.rshiftl(w, 0w8));
-                        update (7, w))
+                    update (7, W64.rshiftl(w, 0w56));
+                    update (6, W64.rshiftl(w, 0w48));
+                    update (5, W64.rshiftl(w, 0w40));
+                    update (4, W64.rshiftl(w, 0w32));
+                    update (3, W64.rshiftl(w, 0w24));
+                    update (2, W64.rshiftl(w, 0w16));
+                    update (1, W64.rshiftl(w, 0w8));
+                    update (0, w)
                   end
             end
 
-- 
2.43.0


From de8bf53f6c01d3e5d8e5860ff5af43c1ff86cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 083/100] fix: Real.realFloor and friends changed large
 integral values

Adding 2^52 to a value that is already at least 2^52 rounds it, so odd
integers from 2^52 up came out changed; and a zero result could have the
wrong sign (realFloor 0.5 was ~0.0).
---
 .../Basis/Implementation/Real/real64.sml       | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index 2de9ef4..46cdc3b 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -68,13 +68,17 @@ structure Real64Imp : REAL =
      * given rounding mode.
      * May be applied to inf's and nan's.
      *)
-      fun realround mode x = let
-	    val saveMode = IEEEReal.getRoundingMode ()
-	    in
-	      IEEEReal.setRoundingMode mode;
-	      (if x>=0.0 then x+maxInt-maxInt else x-maxInt+maxInt)
-		before IEEEReal.setRoundingMode saveMode
-	    end
+      fun realround mode x = if InlineT.Real64.abs x < maxInt
+	    then let
+	      val saveMode = IEEEReal.getRoundingMode ()
+	      val _ = IEEEReal.setRoundingMode mode
+	      val y = if x>=0.0 then x+maxInt-maxInt else x-maxInt+maxInt
+	      in
+		IEEEReal.setRoundingMode saveMode;
+	      (* a zero result has the sign of the argument *)
+		if InlineT.Real64.signBit y = InlineT.Real64.signBit x then y else ~y
+	      end
+	    else x (* already integral, infinite, or a nan *)
     in
     val realFloor = realround IEEEReal.TO_NEGINF
     val realCeil = realround IEEEReal.TO_POSINF
-- 
2.43.0


From 5cca72b8d475a4da47c446c49afdf09f2e14f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 084/100] fix: Real.fromManExp returned zero for all exponents
 below ~1020

The small values were halved 1020-e instead of ~1020-e times, so
fromManExp was not the inverse of toManExp for the smallest normal and
for subnormal numbers; and a negative value underflowed to positive zero.
---
 base/system/Basis/Implementation/Real/real64.sml | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index 46cdc3b..7f8c425 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -188,10 +188,11 @@ structure Real64Imp : REAL =
                                  in f(e-1020,  Assembly.A.scalb(m,1020))
                                 end
                     else if e < ~1020
-                         then if e < ~1200 then 0.0
-                           else let fun f(i,x) = if i=0 then x else f(i-1, x*0.5)
-                                 in f(1020-e, Assembly.A.scalb(m, ~1020))
-                                end
+                         then let (* scale in two steps, of which only the second rounds *)
+                           val e = if e < ~1200 then ~1200 else e
+                           in
+                             Assembly.A.scalb(m, e+200) * Assembly.A.scalb(1.0, ~200)
+                           end
                          else Assembly.A.scalb(m,e)  (* This is the common case! *)
                   else let
                     val {man=m', exp=e'} = toManExp m
-- 
2.43.0


From 00644e1eec10dce87e08111cae53ea66e0e2ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 085/100] fix: Real.nextAfter skipped the subnormal numbers

Stepping down from the smallest normal number or from any subnormal one
gave zero, and stepping from a zero to the infinity of the other sign gave
a nan.
---
 .../Basis/Implementation/Real/real64.sml      | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index 7f8c425..e2b7803 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -280,27 +280,23 @@ structure Real64Imp : REAL =
             fun stepDn () = let
                   val ef = W64.andb(rBits, expAndFracMask) - 0w1
                   in
-                    if (ef < 0wx0010000000000000)
-                      (* underflow, so return ±zero *)
-                      then fromBits rSign
-                      else fromBits(W64.orb(rSign, ef))
+                    fromBits(W64.orb(rSign, ef))
                   end
             in
               if (rExp = expMask)
                 then r  (* r is either a NaN or infinity so return it *)
+              else if (tExp = expMask) andalso (tFrac <> 0w0)
+                then t (* t is a NaN, so return it *)
+              else if (W64.orb(rExp, rFrac) = 0w0)
+                (* rExp = 0 && rFrac = 0 ==> r = ±0.0 *)
+                then fromBits(W64.orb(tSign, 0w1)) (* ± minimum subnormal *)
               else if (tExp = expMask)
-                then if (tFrac <> 0w0)
-                  then t (* t is a NaN, so return it *)
-                  else if (rSign = tSign)
+                then if (rSign = tSign)
                     (* t is infinity with the same sign as r, so make r bigger *)
                     then stepUp ()
                     (* t is infinity with the opposite sign as r, so make r smaller *)
                     else stepDn ()
-              (* both r and t are normal/subnormal numbers *)
-              else if (W64.orb(rExp, rFrac) = 0w0)
-                (* rExp = 0 && rFrac = 0 ==> r = ±0.0 *)
-                then fromBits(W64.orb(tSign, 0w1)) (* ± minimum subnormal *)
-              (* bit r and t are non-zero normal/subnormal numbers *)
+              (* r is a non-zero normal/subnormal number and t is finite *)
               else if (rSign <> tSign)
                 (* when different signs, move `r` toward 0 *)
                 then stepDn()
-- 
2.43.0


From c03e979666b32a204457f96d9784997826ee46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 086/100] fix: Real.rem was inexact, and a nan for infinite
 divisors

y * frac(x/y) has the rounding errors of the division and the product,
which for large quotients are larger than the remainder itself.
---
 .../Basis/Implementation/Real/real64.sml      | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Real/real64.sml b/base/system/Basis/Implementation/Real/real64.sml
index e2b7803..c9c78e7 100644
--- a/base/system/Basis/Implementation/Real/real64.sml
+++ b/base/system/Basis/Implementation/Real/real64.sml
@@ -247,7 +247,27 @@ structure Real64Imp : REAL =
 
     fun realMod x = #frac (split x)
 
-    fun rem(x,y) = y * #frac(split(x/y))
+    fun rem (x, y) = let
+          val b = abs y
+          (* subtract the largest multiple of `b` by a power of two until `a` is
+           * less than `b`; each of the subtractions is exact.
+           *)
+          fun lp a = if (a < b)
+                then a
+                else let
+                  val {man=ma, exp=ea} = toManExp a
+                  val {man=mb, exp=eb} = toManExp b
+                  val n = if (ma < mb) then I.-(I.-(ea, eb), 1) else I.-(ea, eb)
+                  in
+                    lp (a - fromManExp{man=b, exp=n})
+                  end
+          in
+            if isNan x orelse isNan y orelse Bool.not(isFinite x) orelse (y == 0.0)
+              then (x * y) / (x * y)
+            else if isFinite y
+              then copySign (lp (abs x), x)
+              else x
+          end
 
     fun checkFloat x = if x>negInf andalso x<posInf then x
                        else if isNan x then raise General.Div
-- 
2.43.0


From 6439e95a9eb5305de9d418d9405e7a98cca034ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:16 +0000
Subject: [PATCH 087/100] fix: every blasted-out object leaked its writer

---
 base/runtime/gc/blast-out.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/gc/blast-out.c b/base/runtime/gc/blast-out.c
index d3accdc..2525d51 100644
--- a/base/runtime/gc/blast-out.c
+++ b/base/runtime/gc/blast-out.c
@@ -309,6 +309,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
     if (WR_Error(wr))
 	return BLAST_ERROR;
     else {
+	WR_Free(wr);
 	SEQHDR_ALLOC (msp, blastedObj, DESC_string, blastedObj, totSzB);
 	return blastedObj;
     }
-- 
2.43.0


From 484231589f29bf7d248528f07555b4b339475f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:36 +0000
Subject: [PATCH 088/100] fix: a heap collection soon after an overflow trap
 could crash

A trap can happen anywhere in the code, so the callee-save registers might
hold untagged data or dead pointers then; they were passed on to the
handler of the exception, where they are roots of the collector.
---
 base/runtime/kernel/run-ml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index 18b28cc..39fa8ad 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -195,6 +195,12 @@ SayDebug ("run-ml: poll event\n");
                     LIST_cons(msp, traceStk, loc, LIST_nil);
                     EXN_ALLOC(msp, exn, msp->ml_faultExn, ML_unit, traceStk);
                     RaiseMLExn (msp, exn);
+                  /* the fault might have happened anywhere in the code, so these
+                   * might hold untagged data or pointers that are not live.
+                   */
+                    for (int i = 0;  i < CALLEESAVE;  i++) {
+                        msp->ml_calleeSave[i] = ML_unit;
+                    }
                 } break;
 
               case REQ_BIND_CFUN:
-- 
2.43.0


From 85a6720e0f942bbe8e30056d872edc6facbff33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:26 +0000
Subject: [PATCH 089/100] fix: dividing a variable by a power of two constant
 overwrote the variable

On amd64 the code for `x div ~8`, `Int.quot (x, 8)`, etc. negated or adjusted
the register of x itself, so later uses of x (including the remainder and
sign tests that `div` expands to) saw a different value: 15 div ~8 was ~1.
Negating first was also wrong for the smallest integer.
---
 MLRISC/amd64/mltree/amd64-gen.sml | 36 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index 2255bcc..d5fb145 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -451,6 +451,16 @@ functor AMD64Gen (
 	and getExpr (exp as T.REG(_, rd)) = rd
           | getExpr exp = genExpr exp
 
+      (* evaluate an expression into a fresh register, which the caller may modify
+       * (the register returned by getExpr may be that of a variable)
+       *)
+	and copyExpr (ty, exp) = let
+	    val r = newReg ()
+	    in
+	      move (ty, operand ty exp, I.Direct (ty, r));
+	      r
+	    end
+
 	and moveToReg (ty, opnd) = let
 	    val dst = I.Direct (ty, newReg ())
 	    in
@@ -613,7 +623,7 @@ functor AMD64Gen (
 		      | SOME(_, false, _, p) =>
 		          shift (ty, O.sarOp, T.REG (ty, getExpr e1), p)
 		      | SOME(_, true, _, p) => let
-			  val reg = getExpr e1
+			  val reg = copyExpr (ty, e1)
 			  in
 			    emit(I.UNARY { unOp = O.negOp ty, opnd = I.Direct (ty,reg) });
 			    shift (ty, O.sarOp, T.REG (ty, reg), p)
@@ -651,7 +661,7 @@ functor AMD64Gen (
 		      | SOME(_, false, a, _) =>
 		          binaryComm (ty, O.andOp, e1, T.LI (T.I.fromInt32 (ty, a - 1)))
 		      | SOME(_, true, a, _) => let
-			  val r1 = getExpr e1
+			  val r1 = copyExpr (ty, e1)
 			  val o1 = I.Direct (ty,r1)
 			  in
 			    emit (I.UNARY { unOp = O.negOp ty, opnd = o1 });
@@ -683,14 +693,10 @@ functor AMD64Gen (
 		     of SOME(n, isneg, a, p) =>
 		       if signed then
 			   let val label = Label.anon ()
-			       val reg1 = getExpr e1
+			       val reg1 = copyExpr (ty, e1)
 			       val opnd1 = I.Direct (ty,reg1)
 			   in
-			       if isneg then
-				   emit (I.UNARY { unOp = O.negOp ty,
-						   opnd = opnd1 })
-			       else if setZeroBit e1 then ()
-			       else emit (O.cmpOp ty { lsrc = opnd1,
+			       emit (O.cmpOp ty { lsrc = opnd1,
 						   rsrc = I.Immed 0 });
 			       emit (I.JCC { cond = I.GE,
 					     opnd = immedLabel label });
@@ -702,7 +708,14 @@ functor AMD64Gen (
 						    src = I.Immed (a - 1),
 						    dst = opnd1 });
 			       defineLabel label;
-			       shift (ty, O.sarOp, T.REG (ty, reg1), p)
+			       shift (ty, O.sarOp, T.REG (ty, reg1), p);
+			     (* the quotient by the absolute value is always
+			      * representable (and not minInt), so we can negate it
+			      *)
+			       if isneg
+				 then emit (I.UNARY { unOp = O.negOp ty,
+						      opnd = dstOpnd })
+				 else ()
 			   end
 		       else shift (ty, O.shrOp, e1, p)
 		     | NONE =>
@@ -731,8 +744,7 @@ functor AMD64Gen (
 			       val l = Label.anon ()
 			   in
 			       move (ty, o1, tmp);
-			       if setZeroBit e1 then ()
-			       else emit ((O.cmpOp ty) { lsrc = o1,
+			       emit ((O.cmpOp ty) { lsrc = o1,
 						   rsrc = I.Immed 0 });
 			       emit (I.JCC { cond = I.GE,
 					     opnd = immedLabel l });
@@ -822,7 +834,7 @@ functor AMD64Gen (
 
 	      fun multiply_notrap (ty, e1, e2 as T.LI n') = (case analyze n'
 		     of SOME(_, isneg, _, p) => let
-			  val r1 = getExpr e1
+			  val r1 = copyExpr (ty, e1)
 			  val o1 = I.Direct (ty,r1)
 			  in
 			    if isneg
-- 
2.43.0


From d52e6b5cfea98a6c12262dce464b9a43d8dc2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:51 +0000
Subject: [PATCH 090/100] fix: Int64.rem and mod of the smallest integer by ~1
 raised Overflow

---
 MLRISC/amd64/mltree/amd64-gen.sml | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index d5fb145..e8c1a6b 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -723,8 +723,28 @@ functor AMD64Gen (
 		| divide (ty, signed, e1, e2) =
 		  divrem (ty, signed, e1, e2, rax ty)
 
+	      (* signed remainder by a divisor that may be ~1; the IDIV instruction traps for
+	       * minInt and ~1, since the quotient overflows, but the remainder is 0.
+	       *)
+	      fun srem (ty, e1, e2) = let
+		  val (opnd1, opnd2) = (operand ty e1, regOrMem (ty, operand ty e2))
+		  val tmp = I.Direct (ty, newReg ())
+		  val l = Label.anon ()
+		  in
+		    move (ty, I.Immed 0, tmp);
+		    emit ((O.cmpOp ty) { lsrc = opnd2, rsrc = I.Immed ~1 });
+		    emit (I.JCC { cond = I.EQ, opnd = immedLabel l });
+		    move (ty, opnd1, rax ty);
+		    emit (signExtend ty);
+		    mark (I.MULTDIV{multDivOp=O.idiv1Op ty, src=opnd2}, an);
+		    move (ty, rdx ty, tmp);
+		    defineLabel l;
+		    move (ty, tmp, dstOpnd)
+		  end
+
 	      (* rem never causes overflow *)
-              fun rem (ty, signed, e1, e2 as T.LI n') = (case analyze n'
+              fun rem (ty, true, e1, e2 as T.LI ~1) = srem (ty, e1, e2)
+		| rem (ty, signed, e1, e2 as T.LI n') = (case analyze n'
 		     of SOME(n, isneg, a, _) =>
 		       if signed then
 			   (* The following logic should work uniformely
@@ -766,8 +786,9 @@ functor AMD64Gen (
 			       binaryComm (ty, O.andOp, e1,
 					   T.LI (T.I.fromInt32 (ty, n - 1)))
 		     | NONE => divrem (ty, signed, e1, e2, rdx ty))
-		| rem(ty, signed, e1, e2) =
-                    divrem(ty, signed, e1, e2, rdx ty)
+		| rem(ty, true, e1, e2) = srem (ty, e1, e2)
+		| rem(ty, false, e1, e2) =
+                    divrem(ty, false, e1, e2, rdx ty)
 
 
 	      (* unsigned integer multiplication *)
-- 
2.43.0


From a360e97fb996eb9614a4b8bec532bc67687a3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:08 +0000
Subject: [PATCH 091/100] fix: IntInf.pow of ~1 and 1 to a negative exponent
 was 0

---
 base/system/smlnj/init/target32-core-intinf.sml | 3 ++-
 base/system/smlnj/init/target64-core-intinf.sml | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/system/smlnj/init/target32-core-intinf.sml b/base/system/smlnj/init/target32-core-intinf.sml
index ea5dc86..9848e29 100644
--- a/base/system/smlnj/init/target32-core-intinf.sml
+++ b/base/system/smlnj/init/target32-core-intinf.sml
@@ -645,6 +645,7 @@ structure CoreIntInf :> sig
 
     fun natpow (_, 0) = [0w1]
       | natpow ([], n) = if InLine.int_lt (n, 0) then raise Assembly.Div else []
+      | natpow (x as [0w1], _) = x
       | natpow (x, n) =
 	  if InLine.int_lt (n, 0) then []
 	  else let fun exp (m, 0w0) = [0w1]
@@ -666,7 +667,7 @@ structure CoreIntInf :> sig
 	    val BI { negative, digits } = concrete i
 	in
 	    abstract (bi { negative = negative andalso
-	                              InLine.int_eql (InLine.int_rem (n, 2), 1),
+	                              not (InLine.int_eql (InLine.int_rem (n, 2), 0)),
 			   digits = natpow (digits, n) })
 	end
 
diff --git a/base/system/smlnj/init/target64-core-intinf.sml b/base/system/smlnj/init/target64-core-intinf.sml
index dac21d1..08e3048 100644
--- a/base/system/smlnj/init/target64-core-intinf.sml
+++ b/base/system/smlnj/init/target64-core-intinf.sml
@@ -559,6 +559,7 @@ structure CoreIntInf :> sig
 
     fun natpow (_, 0) = [0w1]
       | natpow ([], n) = if InLine.int_lt (n, 0) then raise Assembly.Div else []
+      | natpow (x as [0w1], _) = x
       | natpow (x, n) =
 	  if InLine.int_lt (n, 0) then []
 	  else let fun exp (m, 0w0) = [0w1]
@@ -580,7 +581,7 @@ structure CoreIntInf :> sig
 	    val BI { negative, digits } = concrete i
 	in
 	    abstract (bi { negative = negative andalso
-	                              InLine.int_eql (InLine.int_rem (n, 2), 1),
+	                              not (InLine.int_eql (InLine.int_rem (n, 2), 0)),
 			   digits = natpow (digits, n) })
 	end
 
-- 
2.43.0


From 78b40bdfab876fb5f425857540dccd9f1a296988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:52 +0000
Subject: [PATCH 092/100] fix: floor, ceil, trunc and round were wrong for
 large arguments

ceil and round added to the argument, which rounds above 2^52
(round 4503599627370497.0 was 4503599627370498), and the range check let
values just outside of the range of int through.
---
 base/system/smlnj/init/pervasive.sml       | 15 ++++++++++-----
 base/system/smlnj/init/target64-inline.sml | 11 ++---------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/base/system/smlnj/init/pervasive.sml b/base/system/smlnj/init/pervasive.sml
index 4024c82..5b70792 100644
--- a/base/system/smlnj/init/pervasive.sml
+++ b/base/system/smlnj/init/pervasive.sml
@@ -171,17 +171,22 @@ val real = R64.from_int
 
 val floor = R64.floor
 
-fun ceil x = Int.- (~1, floor (R64.~ (x + 1.0)))
+fun ceil x = let
+      val fl = floor x
+      in
+	if R64.< (real fl, x) then Int.+ (fl, 1) else fl
+      end
 
 fun trunc x = if R64.< (x, 0.0) then ceil x else floor x
 
 fun round x = let
     (* ties go to the nearest even number *)
-      val fl = floor(x+0.5)
-      val cl = ceil(x-0.5)
+      val fl = floor x
+      val frac = x - real fl
       in
-	if fl=cl then fl
-	else if Word.andb(Word.fromInt fl, 0w1) = 0w1 then cl
+	if R64.< (frac, 0.5) then fl
+	else if R64.< (0.5, frac) then Int.+ (fl, 1)
+	else if Word.andb(Word.fromInt fl, 0w1) = 0w1 then Int.+ (fl, 1)
 	else fl
       end
 
diff --git a/base/system/smlnj/init/target64-inline.sml b/base/system/smlnj/init/target64-inline.sml
index e69ef03..6092944 100644
--- a/base/system/smlnj/init/target64-inline.sml
+++ b/base/system/smlnj/init/target64-inline.sml
@@ -96,20 +96,13 @@ structure InlineT =
 (* FIXME: should use InLine.floor_real64_to_int, but it is currently not supported by
  * the CPS code generator.  Can also use InLine.round_real64_to_int.
  *)
-	local
-	(* the minInt (~4611686018427387904) and maxInt (4611686018427387904)
-	 * values converted to reals (with loss of precision).
-	 *)
-	  val rminInt = ~4611686018427390000.0
-	  val rmaxInt = 4611686018427390000.0
-	in
 	fun floor (x : real) =
-	      if InLine.real64_le(rminInt, x) andalso InLine.real64_le(x, rmaxInt)
+	      if InLine.real64_le(~4611686018427387904.0, x)
+	      andalso InLine.real64_lt(x, 4611686018427387904.0)
 		then Assembly.A.floor x
 	      else if InLine.real64_eql(x, x)
 		then raise Assembly.Overflow
 		else raise Core.Domain (* nan *)
-	end (* local *)
 
 	val signBit : real -> bool = InLine.real64_sgn
 
-- 
2.43.0


From f4d8d3fa755866821885dad4f0283b301b54fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:52 +0000
Subject: [PATCH 093/100] fix: Math.tanh was a nan for large arguments

---
 .../Basis/Implementation/Real/math64-common.sml  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index 635eb81..c260e33 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -394,13 +394,13 @@ structure Math64Common : sig
 	      else 0.5 * (a - 1.0 / a)
 	  end
 
-    fun tanh u = let
-	  val a = exp u
-	  val b = 1.0 / a
-	  in
-	    if a==0.0
-	      then copysign(1.0,u)
-	      else (a-b) / (a+b)
-	  end
+    fun tanh u = if (u > 22.0) then 1.0
+	  else if (u < ~22.0) then ~1.0
+	  else let
+	    val a = exp u
+	    val b = 1.0 / a
+	    in
+	      (a-b) / (a+b)
+	    end
 
   end
-- 
2.43.0


From 77f8a2d3a3eb382b07eff768d180bf569b96c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:41 +0000
Subject: [PATCH 094/100] fix: Math.exp of negative arguments was inaccurate

The adjustment by copysign(half, x) is for truncation, but floor is used,
so the reduced argument could be as large as 1.5*ln 2, which is outside
the interval of the approximation: exp ~5E~324 was 1.0000000000008975.
---
 base/system/Basis/Implementation/Real/math64-common.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Real/math64-common.sml b/base/system/Basis/Implementation/Real/math64-common.sml
index c260e33..20d7395 100644
--- a/base/system/Basis/Implementation/Real/math64-common.sml
+++ b/base/system/Basis/Implementation/Real/math64-common.sml
@@ -205,7 +205,7 @@ structure Math64Common : sig
     fun exp (x:real) = let  (* propagates and generates inf's and nan's correctly *)
 	  fun exp_norm x = let
 	      (* argument reduction : x --> x - k*ln2 *)
-		val k = floor(invln2*x+copysign(half,x)) (* k=NINT(x/ln2) *)
+		val k = floor(invln2*x+half) (* k=NINT(x/ln2) *)
 		val K = real k
 	      (* express x-k*ln2 as z+c *)
 		val hi = x-K*ln2hi
-- 
2.43.0


From e8d303c1fae67553d149309333d38ebac51b048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:41 +0000
Subject: [PATCH 095/100] fix: Real.toString and toDecimal gave digits of a
 different number

The test for whether the upper bound of the interval of acceptable
results is itself acceptable was inverted.
---
 base/system/Basis/Implementation/Real/real64-to-frep.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/Real/real64-to-frep.sml b/base/system/Basis/Implementation/Real/real64-to-frep.sml
index 3012ee6..1e07763 100644
--- a/base/system/Basis/Implementation/Real/real64-to-frep.sml
+++ b/base/system/Basis/Implementation/Real/real64-to-frep.sml
@@ -73,7 +73,7 @@ structure Real64ToFRep : sig
                     else (i, a, b, c, digit, allAZero, allBZero)
                 end
           val (i, a, b, c, digit, allAZero, allBZero) =
-                iter1 (0, a, b, if acceptBounds then c - 1 else c, 0, true, true)
+                iter1 (0, a, b, if acceptBounds then c else c - 1, 0, true, true)
           fun iter2 (i, a, b, c, digit, allBZero) = let
                 val (aq10, ar10) = IntInf.quotRem (a, 10)
                 in
@@ -93,7 +93,7 @@ structure Real64ToFRep : sig
           val isTie = (digit = 5) andalso allBZero
           val breakTieDown = (IntInf.andb(b, 1) = 0)
           val wantRoundDown = (digit < 5) orelse (isTie andalso breakTieDown)
-          val roundDown = (wantRoundDown andalso (allAZero orelse a <> b))
+          val roundDown = (wantRoundDown andalso ((acceptBounds andalso allAZero) orelse a <> b))
                 orelse (b+1 > c)
           in
             if roundDown then (b, i) else (b+1, i)
-- 
2.43.0


From 370c63cfaa9aec148cb0f9dfef0221a902a3edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:58 +0000
Subject: [PATCH 096/100] fix: converting large IntInf values to reals rounded
 more than once

---
 .../Target64Bit/intinf-to-real64.sml          | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml b/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml
index 715a4ff..2bdade2 100644
--- a/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml
+++ b/base/system/Basis/Implementation/Target64Bit/intinf-to-real64.sml
@@ -13,32 +13,52 @@ structure IntInfToReal64 : sig
 
   end = struct
 
-    val fromInt64 : Int64.int -> real = InlineT.Real64.from_int64
-    fun w2r w = fromInt64(InlineT.Int64.fromLarge(InlineT.Word.toLargeInt w))
-    val baseBits = InlineT.Word.toIntX CoreIntInf.baseBits
+    structure W = InlineT.Word
 
-    val rbase = w2r CoreIntInf.base
+    val fromInt64 : Int64.int -> real = InlineT.Real64.from_int64
+    fun w2i w = InlineT.Int64.fromLarge(W.toLargeInt w)
+    val baseBits = W.toIntX CoreIntInf.baseBits
 
   (* some protection against insanity... *)
     val _ = if baseBits <> 62
 	  then raise Fail "unexpected baseBits in intinf implementation"
 	  else ()
 
+    val topBit : word = 0wx2000000000000000
+    val digitMask : word = 0wx3fffffffffffffff
+
     fun cvt (x : IntInf.int) = let
 	  val CoreIntInf.BI{ negative, digits } = CoreIntInf.concrete x
-	  fun dosign (x : real) = if negative then ~x else x
-	(* We need at most two "big digits" to get 53 bits of precision...
-	 * (See insanity insurance above.)
+	(* convert `w * 2^k`; this conversion is the only step that rounds *)
+	  fun toReal (w, k) = let
+		val i = w2i w
+		val r = fromInt64 (if negative then InlineT.Int64.~ i else i)
+		in
+		  if (k = 0) then r else Assembly.A.scalb (r, k)
+		end
+	(* The leading 62 bits are sufficient to get 53 bits of precision, when the
+	 * last of them also tells whether any of the bits that follow is set.
 	 *)
-	  fun calc (k, d1, d2, []) =
-		dosign (Assembly.A.scalb (w2r d1 + rbase * w2r d2, k))
-	    | calc (k, _, d1, d2 :: r) = calc (k + baseBits, d1, d2, r)
+	  fun normalize (k, d1, d2, sticky) = let
+		fun shiftAmt (d, s) = if (W.andb(d, topBit) <> 0w0)
+		      then s
+		      else shiftAmt (W.lshift(d, 0w1), s+0w1)
+		val s = shiftAmt (d2, 0w0)
+		val w = W.orb(W.lshift(d2, s), W.rshiftl(d1, 0w62-s))
+		val rest = W.andb(W.lshift(d1, s), digitMask)
+		in
+		  if sticky orelse (rest <> 0w0)
+		    then toReal (W.orb(w, 0w1), k + baseBits - W.toIntX s)
+		    else toReal (w, k + baseBits - W.toIntX s)
+		end
+	  fun calc (k, d1, d2, sticky, []) = normalize (k, d1, d2, sticky)
+	    | calc (k, d1, d2, sticky, d::r) =
+		calc (k + baseBits, d2, d, sticky orelse (d1 <> 0w0), r)
 	  in
 	    case digits
 	     of [] => 0.0
-	      | [d] => dosign (w2r d)
-	      | [d1, d2] => dosign (w2r d1 + rbase * w2r d2)
-	      | d1 :: d2 :: r => calc (0, d1, d2, r)
+	      | [d] => toReal (d, 0)
+	      | d1 :: d2 :: r => calc (0, d1, d2, false, r)
 	    (* end case *)
 	  end
 
-- 
2.43.0


From 2f4acbdfcc2524a2d190c40caeeb9a79d48e8c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:37 +0000
Subject: [PATCH 097/100] fix: the AMD64 code generator failed on large
 constant subscripts and spilled 64-bit constants

A subscript that is a constant not fitting in 32 bits (e.g., String.sub(s, 1099511627776), which
must raise Subscript) was rejected with "doEA: immediate too large", and a 64-bit constant that
was spilled with "MOVABSQ unimplemented"; either killed the compilation with an internal error.
---
 MLRISC/amd64/instructions/amd64Props.sml | 2 +-
 MLRISC/amd64/mltree/amd64-gen.sml        | 7 +++++--
 MLRISC/amd64/ra/amd64SpillInstr.sml      | 5 +++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/MLRISC/amd64/instructions/amd64Props.sml b/MLRISC/amd64/instructions/amd64Props.sml
index c6c1eb8..6b4187c 100644
--- a/MLRISC/amd64/instructions/amd64Props.sml
+++ b/MLRISC/amd64/instructions/amd64Props.sml
@@ -310,7 +310,7 @@ functor AMD64Props (
 	 | I.MOVE {mvOp, ...} =>
 	   (case mvOp
 	     of ( I.MOVQ | I.MOVSWQ | I.MOVZWQ | I.MOVSBQ |
-		  I.MOVZBQ | I.MOVSLQ |
+		  I.MOVZBQ | I.MOVSLQ | I.MOVABSQ |
 		  I.CVTSD2SIQ | I.CVTSS2SIQ
 		) => 64
 	      | ( I.MOVL | I.MOVSWL | I.MOVZWL | I.MOVSBL |
diff --git a/MLRISC/amd64/mltree/amd64-gen.sml b/MLRISC/amd64/mltree/amd64-gen.sml
index e8c1a6b..56719c4 100644
--- a/MLRISC/amd64/mltree/amd64-gen.sml
+++ b/MLRISC/amd64/mltree/amd64-gen.sml
@@ -288,7 +288,7 @@ functor AMD64Gen (
   	      | doEA (t::trees, b, i, s, d) = (case t
 	        of T.LI n => if fitsIn32Bits n
 		    then doEAImmed (trees, toInt32 n, b, i, s, d)
-		    else error "doEA: immediate too large"
+		    else displace (trees, t, b, i, s, d)
 		 | T.CONST _ => doEALabel(trees, t, b, i, s, d)
 		 | T.LABEL _ => doEALabel(trees, t, b, i, s, d)
 		 | T.LABEXP le => doEALabel(trees, le, b, i, s, d)
@@ -313,7 +313,10 @@ functor AMD64Gen (
 	  (* Add a 32-bit immed constant *)
             and doEAImmed (trees, 0, b, i, s, d) = doEA(trees, b, i, s, d)
  	      | doEAImmed (trees, n, b, i, s, I.Immed m) =
-                  doEA(trees, b, i, s, I.Immed(n+m))
+                  (case (SOME(n+m) handle Overflow => NONE)
+		    of SOME m' => doEA(trees, b, i, s, I.Immed m')
+		     | NONE => displace(trees, T.LI(T.I.fromInt32(ty, n)), b, i, s, I.Immed m)
+		  (* end case *))
               | doEAImmed (trees, n, b, i, s, I.ImmedLabel le) =
                   doEA(trees, b, i, s,
                        I.ImmedLabel(T.ADD(ty,le,T.LI(T.I.fromInt32(ty, n)))))
diff --git a/MLRISC/amd64/ra/amd64SpillInstr.sml b/MLRISC/amd64/ra/amd64SpillInstr.sml
index 8b5e335..f694ac1 100644
--- a/MLRISC/amd64/ra/amd64SpillInstr.sml
+++ b/MLRISC/amd64/ra/amd64SpillInstr.sml
@@ -115,8 +115,9 @@ functor AMD64SpillInstr (
 		    	        return=return, uses=uses,
 			        cutsTo=cutsTo, mem=mem, pops=pops}, an)
 		 (* With sign or zero extended spills we use different operand sizes
-		  * for copying to the tmp operand and for copying from the tmp operand. *)
-		 | I.MOVE {mvOp as (I.MOVZBQ|I.MOVSBQ|I.MOVZWQ|I.MOVSWQ|
+		  * for copying to the tmp operand and for copying from the tmp operand.
+		  * A 64-bit immediate can only be moved to a register. *)
+		 | I.MOVE {mvOp as (I.MOVABSQ|I.MOVZBQ|I.MOVSBQ|I.MOVZWQ|I.MOVSWQ|
 		                    I.MOVSLQ|I.MOVZBL|I.MOVSBL|I.MOVZWL|
 		                    I.MOVSWL), src, dst} => let
 		   val (tmpR, tmpOpnd, tmpOpnd64) = freshTmp ()
-- 
2.43.0


From ea5edc574f478cd676a20f6599f82cbc50668287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:50 +0000
Subject: [PATCH 098/100] fix: subtracting from the largest int, and constant
 subscripts near it

With a constant first argument, tagged subtraction added the tag to the constant, which is not
representable for the largest int: 4611686018427387903 - x raised Overflow for every x >= 0.
A constant array subscript whose byte offset exceeds the word size stopped the compilation with
an uncaught Overflow instead of raising Subscript at run time.
---
 base/compiler/CodeGen/main/mlrisc-gen-fn.sml | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
index 2a35c20..00afeca 100644
--- a/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
+++ b/base/compiler/CodeGen/main/mlrisc-gen-fn.sml
@@ -724,7 +724,10 @@ functor MLRiscGen (
 		| tagIntAdd (addOp, w, v as C.NUM _) = tagIntAdd(addOp, v, w)
 		| tagIntAdd (addOp, v, w) = addOp(ity, regbind v, stripTag(regbind w))
 
-	      fun tagIntSub (subOp, C.NUM{ival=k, ...}, w) = subOp(ity, LI(k+k+2), regbind w)
+	    (* note: for the largest tagged integer k, k+k+2 is not representable, so the tag
+	     * is added after the subtraction when the constant is the first argument.
+	     *)
+	      fun tagIntSub (subOp, C.NUM{ival=k, ...}, w) = addTag(subOp(ity, LI(k+k+1), regbind w))
 		| tagIntSub (subOp, v, C.NUM{ival=k, ...}) = subOp(ity, regbind v, LI(k+k))
 		| tagIntSub (subOp, v, w) = addTag(subOp(ity, regbind v, regbind w))
 
@@ -792,17 +795,19 @@ functor MLRiscGen (
 	      fun getObjLength v =
 		    orTag (M.SRL(ity, getObjDescriptor v, LW'(D.tagWidth - 0w1)))
 
-	    (* scale-and-add, where the second argument is a tagged integer *)
+	    (* scale-and-add, where the second argument is a tagged integer; scaling a constant
+	     * (out of bounds) index may exceed the word size.
+	     *)
 	      fun scale1 (a, C.NUM{ival=0, ...}) = a
 		| scale1 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI ival)
 		| scale1 (a, i) = M.ADD(ity, a, untagSigned i)
 
 	      fun scale4 (a, C.NUM{ival=0, ...}) = a
-		| scale4 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI(ival*4))
+		| scale4 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI(M.I.narrow(ity, ival*4)))
 		| scale4 (a, i) = M.ADD(ity, a, M.SLL(ity, untagSigned i, two))
 
 	      fun scale8 (a, C.NUM{ival=0, ...}) = a
-		| scale8 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI(ival*8))
+		| scale8 (a, C.NUM{ival, ...}) = M.ADD(ity, a, LI(M.I.narrow(ity, ival*8)))
 		| scale8 (a, i) = M.ADD(ity, a, M.SLL(ity, stripTag(regbind i), two))
 
 	    (* scale by the target word size *)
-- 
2.43.0


From 71020826081f6757eea49fd64ac441d52f8b77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:36 +0000
Subject: [PATCH 099/100] fix: a barrier could be used only once, and resigning
 from it blocked the other threads for ever

---
 cml/src/core-cml/barrier.sml | 57 +++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/cml/src/core-cml/barrier.sml b/cml/src/core-cml/barrier.sml
index 3c02d81..b4e6737 100644
--- a/cml/src/core-cml/barrier.sml
+++ b/cml/src/core-cml/barrier.sml
@@ -15,16 +15,16 @@ structure Barrier :> BARRIER =
 
     datatype 'a result = RAISE of exn | VALUE of 'a
 
+    datatype status = ENROLLED | WAITING | RESIGNED
+
     datatype 'a barrier = BAR of {
 	state : 'a ref,
 	update : 'a -> 'a,
 	nEnrolled : int ref,
 	nWaiting : int ref,
-	waiting : (S.thread_id * 'a result cont) list ref
+	waiting : (S.thread_id * status ref * 'a result cont) list ref
       }
 
-    datatype status = ENROLLED | WAITING | RESIGNED
-
     datatype 'a enrollment = ENROLL of {
 	bar : 'a barrier,
 	sts : status ref	(* current status of this enrollment *)
@@ -49,51 +49,68 @@ structure Barrier :> BARRIER =
 	  S.atomicEnd();
 	  ENROLL{bar = bar, sts = ref ENROLLED})
 
-    fun wakeupThd result (tid, resumeK) =
+    fun wakeupThd result (tid, sts, resumeK) = (
+	  sts := ENROLLED;
 	  S.enqueueThread(
-	    tid, callcc(fn k => (callcc(fn k' => throw k k'); throw resumeK result)))
+	    tid, callcc(fn k => (callcc(fn k' => throw k k'); throw resumeK result))))
+
+  (* all enrolled threads are at the barrier: update the state and wake the
+   * waiting threads.  This is called in an atomic region.
+   *)
+    fun release (BAR{state, update, nWaiting, waiting, ...}) = let
+	  val result = let
+		val x = update(!state)
+		in
+		  state := x;
+		  VALUE x
+		end handle exn => RAISE exn
+	  in
+	    List.app (wakeupThd result) (!waiting);
+	    nWaiting := 0;
+	    waiting := [];
+	    result
+	  end
 
     fun return (RAISE exn) = raise exn
       | return (VALUE x) = x
 
   (* synchronize on a barrier *)
-    fun wait (ENROLL{bar=BAR{state, update, nEnrolled, nWaiting, waiting}, sts}) = (
+    fun wait (ENROLL{bar as BAR{nEnrolled, nWaiting, waiting, ...}, sts}) = (
 	  S.atomicBegin();
 	  case !sts
 	   of ENROLLED => (
-		sts := WAITING;
 		nWaiting := !nWaiting+1;
 		if (!nWaiting = !nEnrolled)
 		  then let (* all threads are at the barrier, so we can proceed *)
-		    val result = let
-			  val x = update(!state)
-			  in
-			    state := x;
-			    VALUE x
-			  end handle exn => RAISE exn
+		    val result = release bar
 		    in
-		      List.app (wakeupThd result) (!waiting);
-		      nWaiting := 0;
-		      waiting := [];
 		      S.atomicEnd ();
 		      return result
 		    end
 		  else (
 		    sts := WAITING;
 		    return (callcc (fn resumeK => (
-		      waiting := (S.getCurThread(), resumeK) :: !waiting;
+		      waiting := (S.getCurThread(), sts, resumeK) :: !waiting;
 		      S.atomicDispatch())))))
 	    | WAITING => (S.atomicEnd(); raise Fail "multiple barrier waits")
 	    | RESIGNED => (S.atomicEnd(); raise Fail "barrier wait after resignation")
 	  (* end case *))
 
   (* resign from an enrolled barrier *)
-    fun resign (ENROLL{bar, sts}) = (
+    fun resign (ENROLL{bar as BAR{nEnrolled, nWaiting, ...}, sts}) = (
 	  S.atomicBegin();
 	  case !sts
-	   of RESIGNED => () (* ignore multiple resignations *)
+	   of RESIGNED => S.atomicEnd() (* ignore multiple resignations *)
 	    | WAITING => (S.atomicEnd(); raise Fail "resign while waiting")
-	    | ENROLLED => (sts := RESIGNED; S.atomicEnd()))
+	    | ENROLLED => (
+		sts := RESIGNED;
+		nEnrolled := !nEnrolled - 1;
+	      (* the remaining threads may all be waiting *)
+		if (!nWaiting > 0) andalso (!nWaiting = !nEnrolled)
+		  then ignore (release bar)
+		  else ();
+		S.atomicEnd())
+	  (* end case *))
 
   (* get the current state of the barrier *)
     fun value (ENROLL{bar=BAR{state, ...}, ...}) = !state
-- 
2.43.0


From 602a2ff9f86b00985e02e2251041c09484ca58e7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 100/100] fix: CML left the handler of another event in force
 after a blocking synchronization

When a synchronization on several events has to block, each block function
was called from within the previous one.  With wrapHandler the previous one
is under its event's handler, so an exception raised by the chosen event's
wrappers, or by the thread after the synchronization, went to the handler of
an event that was not chosen, and the synchronization returned again with
the value of that handler.
---
 cml/src/core-cml/event.sml | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cml/src/core-cml/event.sml b/cml/src/core-cml/event.sml
index 7b67a07..124b623 100644
--- a/cml/src/core-cml/event.sml
+++ b/cml/src/core-cml/event.sml
@@ -279,12 +279,16 @@ fun sayGrp (msg, eg) = let
 		val escape = escape k
 		val (transId, setFlg) = mkFlg()
 		fun log [] = S.atomicDispatch ()
-		  | log (blockFn :: r) =
-		      escape (blockFn {
+		  | log (blockFn :: r) = (
+		    (* go on to the next event in our own context, and not in that
+		     * of blockFn, where a handler (see wrapHandler) may be in force.
+		     *)
+		      callcc (fn nextK => escape (blockFn {
 			  transId = transId,
 			  cleanUp = setFlg,
-			  next = fn () => log r
-			})
+			  next = fn () => throw nextK ()
+			}));
+		      log r)
 		in
 		  log blockFns; error "[log]"
 		end)
@@ -388,12 +392,13 @@ fun sayGrp (msg, eg) = let
 		fun setFlg flg () = (
 		      transId := R.CANCEL; flg := true; chkCVars())
 		fun log [] = S.atomicDispatch ()
-		  | log ((blockFn, flg) :: r) =
-		      escape (blockFn {
+		  | log ((blockFn, flg) :: r) = (
+		      callcc (fn nextK => escape (blockFn {
 			  transId = transId,
 			  cleanUp = setFlg flg,
-			  next = fn () => log r
-			})
+			  next = fn () => throw nextK ()
+			}));
+		      log r)
 		in
 		  log blockFns; error "[log]"
 		end)
-- 
2.43.0

