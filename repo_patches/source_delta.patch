From 3a95d4e75274f2ae8f88b8b6bba490e38aa5f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 01/53] fix: integer division divides the numbers, not their
 NaN-boxed bits

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 44579b5..802951e 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -855,7 +855,7 @@ primLT(Obj x, Obj y) {
 Obj
 primDiv(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return makeNumber(x / y);
+		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
 		// TODO
 		assert(false);
-- 
2.43.0


From 46cea047049b3a873e1ccb1f9ff20e6ec3ff3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 02/53] fix: keep the extra arguments of a call visible to GC
 and throw

A call with more arguments than the function requires ran the first call in a
nested trampoline and kept the remaining arguments only in a C array, so a GC
during that call freed them, and a throw could not capture or unwind it.
---
 src/runtime.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 802951e..36e7ff3 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -146,6 +146,16 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 	return makeNaNPtr(&clo->head, TAG_NATIVE);
 }
 
+// The continuation of a call with more arguments than the function requires:
+// apply its result to the remaining ones, label is the number of them.
+static void
+applyRest(Cora *co, int label, Obj *R) {
+	Obj args[label];
+	memcpy(args, R + 1, label * sizeof(Obj));
+	co->ctx.sp = R;
+	coraCall(co, co->res, label, args);
+}
+
 static void
 coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	struct scmNative *f = mustNative(fn);
@@ -155,17 +165,16 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		Obj ret = makeCurry(co, fn, nargs, args);
 		coraReturn(co, ret);
 	} else {
-		// eval the first call and get the result;
-		Obj *R = stackAlloc(co, f->nframe);
-		R[0] = fn;
-		for (int i = 0; i < required; i++) {
-			R[i + 1] = args[i];
+		// Save the remaining arguments in a continuation frame, where GC and
+		// throw can see them, then make the first call.
+		int rest = nargs - required;
+		Obj *R = stackAlloc(co, rest + 1);
+		R[0] = Nil;
+		for (int i = 0; i < rest; i++) {
+			R[i + 1] = args[required + i];
 		}
-		co->ctx.fn = f->fn;
-		co->ctx.label = 0;
-		coraRun(co);
-		// make the next call.
-		coraCall(co, co->res, nargs - required, args + required);
+		saveCont(co, applyRest, rest, R);
+		coraCall(co, fn, required, args);
 	}
 	return;
 }
-- 
2.43.0


From 467bddb1637a7c3ebb8110d64ad562be046c1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 03/53] fix: apply is a proper tail call and supports partial
 application

apply trapped unless the list had exactly the required length, so the REPL,
which evaluates calls through apply, crashed on ((+ 3) 4); it also left its own
frame on the stack, so loops evaluated by the REPL grew the stack.
---
 src/runtime.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 36e7ff3..507dba5 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -377,23 +377,15 @@ builtinApply(Cora *co, int label, Obj *R) {
 	Obj args = R[2];
 	int nargs = listLen(args);
 
-	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
-	if (f->required != nargs) {
-		// TODO
-		assert(false);
-	}
-
-	Obj *frame = stackAlloc(co, f->nframe);
-	frame[0] = fn;
-	int p = 1;
-	while (args != Nil) {
-		Obj tmp = car(args);
-		frame[p++] = tmp;
+	// The arguments are copied before the frame of apply is released, apply is
+	// a tail call, and currying is left to coraCall.
+	Obj argv[nargs + 1];
+	for (int i = 0; i < nargs; i++) {
+		argv[i] = car(args);
 		args = cdr(args);
 	}
-	co->ctx.fn = f->fn;
-	co->ctx.label = 0;
+	co->ctx.sp = R;
+	coraCall(co, fn, nargs, argv);
 }
 
 strBuf
-- 
2.43.0


From 9f09f8b0f9269802e7dd0b3058fd018c29879146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 04/53] fix: interpreted closures get a frame that holds all
 their parameters

The frame had 4 slots whatever the number of parameters, so the arguments of a
lambda with more than 3 of them were written past its end.
---
 src/runtime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 507dba5..8b82f4e 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -976,8 +976,8 @@ makeClosureForEval(Cora *co, int label, Obj *R) {
 	Obj body = R[2];
 	Obj env = R[3];
 	int len = listLen(params);
-	Obj ret =
-		makeNative(co->gc, 4, applyClosureForEval, len, 3, params, body, env);
+	Obj ret = makeNative(co->gc, len + 1, applyClosureForEval, len, 3, params,
+		body, env);
 	coraReturn(co, ret);
 }
 
-- 
2.43.0


From 398abff469d5e0584bcc3a1626a7e64af20b9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 05/53] fix: any variable name and any string compile to valid
 C

A variable named like a C keyword or like a name of the generated code (int, R,
co) did not compile, a byte above 127 or a backslash gave invalid C.
---
 init.c             | 3728 ++++++++++----------
 lib/toc.c          | 8103 ++++++++++++++++++++++----------------------
 lib/toc.cora       |    2 +-
 lib/toc/internal.c |   26 +-
 4 files changed, 5942 insertions(+), 5917 deletions(-)

diff --git a/init.c b/init.c
index acc8e96..e87ded8 100644
--- a/init.c
+++ b/init.c
@@ -274,315 +274,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512466_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512469_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512472_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512475_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512478_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512482_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512487_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512491_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512499_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512501_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512506_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2312472_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2312475_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2312478_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2312481_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2312484_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2312488_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2312493_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2312497_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2312505_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2312507_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2312512_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3512986_37= co->res;
-Obj _3512992_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513004_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513005_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513006_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513005_37);
-Obj _3513007_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513006_37);
-Obj _3513008_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513009_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513008_37);
-Obj _3513010_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513009_37);
-Obj _3513011_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513012_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513011_37);
-Obj _3513013_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513012_37);
-Obj _3513014_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513015_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513014_37);
-Obj _3513016_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513015_37);
-Obj _3513017_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513018_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513017_37);
-Obj _3513019_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513018_37);
-Obj _3513020_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513021_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513020_37);
-Obj _3513022_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513021_37);
-Obj _3513023_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513024_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513023_37);
-Obj _3513025_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513024_37);
-Obj _3513026_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513027_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513026_37);
-Obj _3513028_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513027_37);
-Obj _3513029_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513030_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513029_37);
-Obj _3513031_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513030_37);
-Obj _3513032_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513033_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513032_37);
-Obj _3513034_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513033_37);
-Obj _3513035_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513036_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513035_37);
-Obj _3513037_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513036_37);
-Obj _3513038_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513039_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513038_37);
-Obj _3513040_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513039_37);
-Obj _3513041_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513042_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513041_37);
-Obj _3513043_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513042_37);
-Obj _3513044_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513045_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513044_37);
-Obj _3513046_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513045_37);
-Obj _3513047_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513048_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513047_37);
-Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513048_37);
-Obj _3513050_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513051_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513054_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, _3513055_37, Nil);
-Obj _3513057_37 = makeCons(co->gc, _3513052_37, _3513056_37);
-Obj _3513058_37 = makeCons(co->gc, _3513049_37, _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, _3513046_37, _3513058_37);
-Obj _3513060_37 = makeCons(co->gc, _3513043_37, _3513059_37);
-Obj _3513061_37 = makeCons(co->gc, _3513040_37, _3513060_37);
-Obj _3513062_37 = makeCons(co->gc, _3513037_37, _3513061_37);
-Obj _3513063_37 = makeCons(co->gc, _3513034_37, _3513062_37);
-Obj _3513064_37 = makeCons(co->gc, _3513031_37, _3513063_37);
-Obj _3513065_37 = makeCons(co->gc, _3513028_37, _3513064_37);
-Obj _3513066_37 = makeCons(co->gc, _3513025_37, _3513065_37);
-Obj _3513067_37 = makeCons(co->gc, _3513022_37, _3513066_37);
-Obj _3513068_37 = makeCons(co->gc, _3513019_37, _3513067_37);
-Obj _3513069_37 = makeCons(co->gc, _3513016_37, _3513068_37);
-Obj _3513070_37 = makeCons(co->gc, _3513013_37, _3513069_37);
-Obj _3513071_37 = makeCons(co->gc, _3513010_37, _3513070_37);
-Obj _3513072_37 = makeCons(co->gc, _3513007_37, _3513071_37);
-Obj _3513073_37 = primSet(co, getBinding(co, packageID, 69).name, _3513072_37);
-Obj _3513088_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513092_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513270_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513271_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513272_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513271_37);
-Obj _3513273_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513272_37);
-Obj _3513274_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513273_37);
-Obj _3513275_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513274_37);
-Obj _3513276_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513275_37);
-Obj _3513277_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513276_37);
-Obj _3513278_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513277_37);
-Obj _3513279_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513278_37);
-Obj _3513280_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513279_37);
-Obj _3513281_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513280_37);
-Obj _3513282_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513281_37);
-Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513282_37);
-Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513283_37);
-Obj _3513285_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513284_37);
-Obj _3513286_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513285_37);
-Obj _3513287_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513286_37);
-Obj _3513288_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513287_37);
-Obj _3513289_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513288_37);
-Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513289_37);
-Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513291_37);
-Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513294_37);
-Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513295_37);
-Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513296_37);
-Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513297_37);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513298_37);
-Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513300_37);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513301_37);
-Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513302_37);
-Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513304_37);
-Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513305_37);
-Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513307_37);
-Obj _3513309_37 = primSet(co, getBinding(co, packageID, 53).name, _3513308_37);
-Obj _3513310_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513311_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513312_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513313_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513314_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513315_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513316_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513317_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513318_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513319_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513320_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513321_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513322_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513323_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513324_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513326_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513327_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513328_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513329_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513330_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513331_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513332_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513333_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513334_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513335_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513336_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513337_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513338_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513339_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513341_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513342_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513345_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513346_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513348_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513348_37);
+Obj v_2312992_25= co->res;
+Obj v_2312998_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2313010_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v_2313011_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2313012_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313011_25);
+Obj v_2313013_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313012_25);
+Obj v_2313014_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2313015_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313014_25);
+Obj v_2313016_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313015_25);
+Obj v_2313017_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2313018_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313017_25);
+Obj v_2313019_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313018_25);
+Obj v_2313020_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2313021_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313020_25);
+Obj v_2313022_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313021_25);
+Obj v_2313023_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2313024_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313023_25);
+Obj v_2313025_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313024_25);
+Obj v_2313026_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2313027_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313026_25);
+Obj v_2313028_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313027_25);
+Obj v_2313029_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2313030_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313029_25);
+Obj v_2313031_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313030_25);
+Obj v_2313032_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2313033_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313032_25);
+Obj v_2313034_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313033_25);
+Obj v_2313035_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2313036_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313035_25);
+Obj v_2313037_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313036_25);
+Obj v_2313038_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2313039_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313038_25);
+Obj v_2313040_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313039_25);
+Obj v_2313041_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2313042_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313041_25);
+Obj v_2313043_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313042_25);
+Obj v_2313044_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2313045_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313044_25);
+Obj v_2313046_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313045_25);
+Obj v_2313047_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2313048_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313047_25);
+Obj v_2313049_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313048_25);
+Obj v_2313050_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2313051_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313050_25);
+Obj v_2313052_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313051_25);
+Obj v_2313053_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2313054_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313053_25);
+Obj v_2313055_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313054_25);
+Obj v_2313056_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2313057_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313056_25);
+Obj v_2313058_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313057_25);
+Obj v_2313059_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2313060_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313059_25);
+Obj v_2313061_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313060_25);
+Obj v_2313062_25 = makeCons(co->gc, v_2313061_25, Nil);
+Obj v_2313063_25 = makeCons(co->gc, v_2313058_25, v_2313062_25);
+Obj v_2313064_25 = makeCons(co->gc, v_2313055_25, v_2313063_25);
+Obj v_2313065_25 = makeCons(co->gc, v_2313052_25, v_2313064_25);
+Obj v_2313066_25 = makeCons(co->gc, v_2313049_25, v_2313065_25);
+Obj v_2313067_25 = makeCons(co->gc, v_2313046_25, v_2313066_25);
+Obj v_2313068_25 = makeCons(co->gc, v_2313043_25, v_2313067_25);
+Obj v_2313069_25 = makeCons(co->gc, v_2313040_25, v_2313068_25);
+Obj v_2313070_25 = makeCons(co->gc, v_2313037_25, v_2313069_25);
+Obj v_2313071_25 = makeCons(co->gc, v_2313034_25, v_2313070_25);
+Obj v_2313072_25 = makeCons(co->gc, v_2313031_25, v_2313071_25);
+Obj v_2313073_25 = makeCons(co->gc, v_2313028_25, v_2313072_25);
+Obj v_2313074_25 = makeCons(co->gc, v_2313025_25, v_2313073_25);
+Obj v_2313075_25 = makeCons(co->gc, v_2313022_25, v_2313074_25);
+Obj v_2313076_25 = makeCons(co->gc, v_2313019_25, v_2313075_25);
+Obj v_2313077_25 = makeCons(co->gc, v_2313016_25, v_2313076_25);
+Obj v_2313078_25 = makeCons(co->gc, v_2313013_25, v_2313077_25);
+Obj v_2313079_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313078_25);
+Obj v_2313094_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v_2313098_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v_2313276_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v_2313277_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2313278_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2313277_25);
+Obj v_2313279_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2313278_25);
+Obj v_2313280_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2313279_25);
+Obj v_2313281_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2313280_25);
+Obj v_2313282_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2313281_25);
+Obj v_2313283_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2313282_25);
+Obj v_2313284_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2313283_25);
+Obj v_2313285_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2313284_25);
+Obj v_2313286_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2313285_25);
+Obj v_2313287_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313286_25);
+Obj v_2313288_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2313287_25);
+Obj v_2313289_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2313288_25);
+Obj v_2313290_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2313289_25);
+Obj v_2313291_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2313290_25);
+Obj v_2313292_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2313291_25);
+Obj v_2313293_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2313292_25);
+Obj v_2313294_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2313293_25);
+Obj v_2313295_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2313294_25);
+Obj v_2313296_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2313295_25);
+Obj v_2313297_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2313296_25);
+Obj v_2313298_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2313297_25);
+Obj v_2313299_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2313298_25);
+Obj v_2313300_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2313299_25);
+Obj v_2313301_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2313300_25);
+Obj v_2313302_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2313301_25);
+Obj v_2313303_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2313302_25);
+Obj v_2313304_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2313303_25);
+Obj v_2313305_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2313304_25);
+Obj v_2313306_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2313305_25);
+Obj v_2313307_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2313306_25);
+Obj v_2313308_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2313307_25);
+Obj v_2313309_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2313308_25);
+Obj v_2313310_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2313309_25);
+Obj v_2313311_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2313310_25);
+Obj v_2313312_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2313311_25);
+Obj v_2313313_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2313312_25);
+Obj v_2313314_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2313313_25);
+Obj v_2313315_25 = primSet(co, getBinding(co, packageID, 53).name, v_2313314_25);
+Obj v_2313316_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2313317_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2313318_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2313319_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2313320_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2313321_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2313322_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v_2313323_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v_2313324_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v_2313325_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v_2313326_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2313327_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2313328_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2313329_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2313330_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2313331_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2313332_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2313333_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2313334_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2313335_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2313336_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2313337_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2313338_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2313339_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2313340_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2313341_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2313342_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2313343_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2313344_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2313345_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2313346_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2313347_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v_2313348_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2313349_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v_2313350_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2313351_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2313352_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2313353_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2313354_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2313354_25);
 return;
 }
 case 2:
 {
-Obj _3512936_37= co->res;
-Obj _3512965_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3512966_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2312942_25= co->res;
+Obj v_2312971_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v_2312972_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512919_37= co->res;
-Obj _3512933_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2312925_25= co->res;
+Obj v_2312939_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512897_37= co->res;
-Obj _3512917_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2312903_25= co->res;
+Obj v_2312923_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512866_37= co->res;
-Obj _3512867_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512868_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512871_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512895_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v_2312872_25= co->res;
+Obj v_2312873_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v_2312874_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v_2312877_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v_2312901_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512758_37= co->res;
-Obj _3512810_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512811_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512816_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512820_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512821_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512829_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512830_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512836_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512847_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512853_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v_2312764_25= co->res;
+Obj v_2312816_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v_2312817_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2312822_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v_2312826_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v_2312827_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2312835_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v_2312836_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2312842_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2312853_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2312859_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512653_37= co->res;
-Obj _3512675_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512708_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512721_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512743_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512757_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v_2312659_25= co->res;
+Obj v_2312681_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2312714_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2312727_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2312749_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2312763_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512638_37= co->res;
-Obj _3512641_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512651_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v_2312644_25= co->res;
+Obj v_2312647_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2312657_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512624_37= co->res;
-Obj _3512636_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v_2312630_25= co->res;
+Obj v_2312642_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512610_37= co->res;
-Obj _3512622_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v_2312616_25= co->res;
+Obj v_2312628_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512596_37= co->res;
+Obj v_2312602_25= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512574_37= co->res;
-Obj _3512579_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512582_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512594_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v_2312580_25= co->res;
+Obj v_2312585_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2312588_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2312600_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512564_37= co->res;
+Obj v_2312570_25= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512562_37= co->res;
+Obj v_2312568_25= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512507_37= co->res;
-Obj _3512508_37 = primSet(co, getBinding(co, packageID, 149).name, _3512507_37);
-Obj _3512514_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512515_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512516_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512517_37 = primGenSym(co);
-Obj _3512518_37 = primSet(co, getBinding(co, packageID, 145).name, _3512517_37);
-Obj _3512522_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512531_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512532_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512549_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512550_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512561_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v_2312513_25= co->res;
+Obj v_2312514_25 = primSet(co, getBinding(co, packageID, 149).name, v_2312513_25);
+Obj v_2312520_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2312521_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2312522_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v_2312523_25 = primGenSym(co);
+Obj v_2312524_25 = primSet(co, getBinding(co, packageID, 145).name, v_2312523_25);
+Obj v_2312528_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2312537_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2312538_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2312555_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2312556_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v_2312567_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -594,67 +594,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512437_37 = R[1];
-Obj _3512438_37 = R[2];
-Obj _3512439_37 = R[3];
-Obj _3512440_37 = R[4];
-Obj _3512461_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512437_37, _3512438_37, _3512439_37, _3512440_37);
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+Obj v_2312443_25 = R[1];
+Obj v_2312444_25 = R[2];
+Obj v_2312445_25 = R[3];
+Obj v_2312446_25 = R[4];
+Obj v_2312467_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2312443_25, v_2312444_25, v_2312445_25, v_2312446_25);
+R[1] = v_2312446_25;
+R[2] = v_2312467_25;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2312446_25);
 return;
 }
 case 1:
 {
-Obj _3513269_37= co->res;
-Obj _3512461_37 = R[1];
-if (True == _3513269_37) {
+Obj v_2313275_25= co->res;
+Obj v_2312467_25 = R[1];
+if (True == v_2313275_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, v_2312467_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, False);
+coraCall1(co, v_2312467_25, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513268_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513268_37) {
+Obj v_2313274_25= co->res;
+Obj v_2312446_25 = R[1];
+Obj v_2312467_25 = R[2];
+if (True == v_2313274_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, v_2312467_25, True);
 return;
 } else {
-R[1] = _3512461_37;
+R[1] = v_2312467_25;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312446_25);
 return;
 }
 }
 case 3:
 {
-Obj _3513266_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513266_37) {
+Obj v_2313272_25= co->res;
+Obj v_2312446_25 = R[1];
+Obj v_2312467_25 = R[2];
+if (True == v_2313272_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, v_2312467_25, True);
 return;
 } else {
-Obj _3513267_37 = primIsString(_3512440_37);
-if (True == _3513267_37) {
+Obj v_2313273_25 = primIsString(v_2312446_25);
+if (True == v_2313273_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, v_2312467_25, True);
 return;
 } else {
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+R[1] = v_2312446_25;
+R[2] = v_2312467_25;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2312446_25);
 return;
 }
 }
@@ -666,49 +666,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512462_37 = R[1];
-if (True == _3512462_37) {
+Obj v_2312468_25 = R[1];
+if (True == v_2312468_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512442_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513254_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513254_37) {
-Obj _3513255_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513256_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513255_37);
-if (True == _3513256_37) {
-Obj _3513257_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513258_37 = PRIM_ISCONS(_3513257_37);
-if (True == _3513258_37) {
-Obj _3513259_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513260_37 = PRIM_CAR(_3513259_37);
-Obj x = _3513260_37;
-Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513262_37 = PRIM_CDR(_3513261_37);
-Obj _3513263_37 = PRIM_EQ(Nil, _3513262_37);
-if (True == _3513263_37) {
-Obj _3513264_37 = makeCons(co->gc, x, Nil);
-Obj _3513265_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513264_37);
-coraReturn(co, _3513265_37);
+Obj v_2312448_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2313260_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2313260_25) {
+Obj v_2313261_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2313262_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2313261_25);
+if (True == v_2313262_25) {
+Obj v_2313263_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313264_25 = PRIM_ISCONS(v_2313263_25);
+if (True == v_2313264_25) {
+Obj v_2313265_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313266_25 = PRIM_CAR(v_2313265_25);
+Obj v_x = v_2313266_25;
+Obj v_2313267_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313268_25 = PRIM_CDR(v_2313267_25);
+Obj v_2313269_25 = PRIM_EQ(Nil, v_2313268_25);
+if (True == v_2313269_25) {
+Obj v_2313270_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2313271_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313270_25);
+coraReturn(co, v_2313271_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, v_2312448_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, v_2312448_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, v_2312448_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, v_2312448_25);
 return;
 }
 }
@@ -720,73 +720,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513093_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513093_37) {
+Obj v_2313099_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2313099_25) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512444_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513232_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513232_37) {
-Obj _3513233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513234_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513233_37);
-if (True == _3513234_37) {
-Obj _3513235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513236_37 = PRIM_ISCONS(_3513235_37);
-if (True == _3513236_37) {
-Obj _3513237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513238_37 = PRIM_CAR(_3513237_37);
-Obj args = _3513238_37;
-Obj _3513239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_ISCONS(_3513240_37);
-if (True == _3513241_37) {
-Obj _3513242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513243_37 = PRIM_CDR(_3513242_37);
-Obj _3513244_37 = PRIM_CAR(_3513243_37);
-Obj body = _3513244_37;
-Obj _3513245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513246_37 = PRIM_CDR(_3513245_37);
-Obj _3513247_37 = PRIM_CDR(_3513246_37);
-Obj _3513248_37 = PRIM_EQ(Nil, _3513247_37);
-if (True == _3513248_37) {
-R[1] = body;
-R[2] = args;
+Obj v_2312450_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313238_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313238_25) {
+Obj v_2313239_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313240_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2313239_25);
+if (True == v_2313240_25) {
+Obj v_2313241_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313242_25 = PRIM_ISCONS(v_2313241_25);
+if (True == v_2313242_25) {
+Obj v_2313243_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313244_25 = PRIM_CAR(v_2313243_25);
+Obj v_args = v_2313244_25;
+Obj v_2313245_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313246_25 = PRIM_CDR(v_2313245_25);
+Obj v_2313247_25 = PRIM_ISCONS(v_2313246_25);
+if (True == v_2313247_25) {
+Obj v_2313248_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313249_25 = PRIM_CDR(v_2313248_25);
+Obj v_2313250_25 = PRIM_CAR(v_2313249_25);
+Obj v_body = v_2313250_25;
+Obj v_2313251_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313252_25 = PRIM_CDR(v_2313251_25);
+Obj v_2313253_25 = PRIM_CDR(v_2313252_25);
+Obj v_2313254_25 = PRIM_EQ(Nil, v_2313253_25);
+if (True == v_2313254_25) {
+R[1] = v_body;
+R[2] = v_args;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, v_2312450_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, v_2312450_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, v_2312450_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, v_2312450_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, v_2312450_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513095_37= co->res;
-if (True == _3513095_37) {
+Obj v_2313101_25= co->res;
+if (True == v_2313101_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -797,8 +797,8 @@ return;
 }
 case 2:
 {
-Obj _3513094_37= co->res;
-if (True == _3513094_37) {
+Obj v_2313100_25= co->res;
+if (True == v_2313100_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -809,22 +809,22 @@ return;
 }
 case 3:
 {
-Obj _3513250_37= co->res;
-Obj args = R[1];
-Obj _3513251_37 = makeCons(co->gc, _3513250_37, Nil);
-Obj _3513252_37 = makeCons(co->gc, args, _3513251_37);
-Obj _3513253_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513252_37);
-coraReturn(co, _3513253_37);
+Obj v_2313256_25= co->res;
+Obj v_args = R[1];
+Obj v_2313257_25 = makeCons(co->gc, v_2313256_25, Nil);
+Obj v_2313258_25 = makeCons(co->gc, v_args, v_2313257_25);
+Obj v_2313259_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313258_25);
+coraReturn(co, v_2313259_25);
 return;
 }
 case 4:
 {
-Obj _3513249_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
+Obj v_2313255_25= co->res;
+Obj v_body = R[1];
+Obj v_args = R[2];
+R[1] = v_args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513249_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313255_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
@@ -834,132 +834,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512445_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513188_37) {
-Obj _3513189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513190_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513189_37);
-if (True == _3513190_37) {
-Obj _3513191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513192_37 = PRIM_ISCONS(_3513191_37);
-if (True == _3513192_37) {
-Obj _3513193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513194_37 = PRIM_CAR(_3513193_37);
-Obj _3513195_37 = PRIM_ISCONS(_3513194_37);
-if (True == _3513195_37) {
-Obj _3513196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513197_37 = PRIM_CAR(_3513196_37);
-Obj _3513198_37 = PRIM_CAR(_3513197_37);
-Obj _3513199_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513198_37);
-if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513201_37 = PRIM_CAR(_3513200_37);
-Obj _3513202_37 = PRIM_CDR(_3513201_37);
-Obj _3513203_37 = PRIM_ISCONS(_3513202_37);
-if (True == _3513203_37) {
-Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513205_37 = PRIM_CAR(_3513204_37);
-Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_CAR(_3513206_37);
-Obj pkg = _3513207_37;
-Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513209_37 = PRIM_CAR(_3513208_37);
-Obj _3513210_37 = PRIM_CDR(_3513209_37);
-Obj _3513211_37 = PRIM_CDR(_3513210_37);
-Obj _3513212_37 = PRIM_EQ(Nil, _3513211_37);
-if (True == _3513212_37) {
-Obj _3513213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513214_37 = PRIM_CDR(_3513213_37);
-Obj _3513215_37 = PRIM_ISCONS(_3513214_37);
-if (True == _3513215_37) {
-Obj _3513216_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513217_37 = PRIM_CDR(_3513216_37);
-Obj _3513218_37 = PRIM_CAR(_3513217_37);
-Obj y = _3513218_37;
-Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513220_37 = PRIM_CDR(_3513219_37);
-Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_EQ(Nil, _3513221_37);
-if (True == _3513222_37) {
-Obj _3513223_37 = primIsString(pkg);
-if (True == _3513223_37) {
-Obj _3513224_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513225_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513224_37);
-R[1] = pkg;
-R[2] = y;
+Obj v_2312451_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313194_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313194_25) {
+Obj v_2313195_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313196_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313195_25);
+if (True == v_2313196_25) {
+Obj v_2313197_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313198_25 = PRIM_ISCONS(v_2313197_25);
+if (True == v_2313198_25) {
+Obj v_2313199_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313200_25 = PRIM_CAR(v_2313199_25);
+Obj v_2313201_25 = PRIM_ISCONS(v_2313200_25);
+if (True == v_2313201_25) {
+Obj v_2313202_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313203_25 = PRIM_CAR(v_2313202_25);
+Obj v_2313204_25 = PRIM_CAR(v_2313203_25);
+Obj v_2313205_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313204_25);
+if (True == v_2313205_25) {
+Obj v_2313206_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313207_25 = PRIM_CAR(v_2313206_25);
+Obj v_2313208_25 = PRIM_CDR(v_2313207_25);
+Obj v_2313209_25 = PRIM_ISCONS(v_2313208_25);
+if (True == v_2313209_25) {
+Obj v_2313210_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313211_25 = PRIM_CAR(v_2313210_25);
+Obj v_2313212_25 = PRIM_CDR(v_2313211_25);
+Obj v_2313213_25 = PRIM_CAR(v_2313212_25);
+Obj v_pkg = v_2313213_25;
+Obj v_2313214_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313215_25 = PRIM_CAR(v_2313214_25);
+Obj v_2313216_25 = PRIM_CDR(v_2313215_25);
+Obj v_2313217_25 = PRIM_CDR(v_2313216_25);
+Obj v_2313218_25 = PRIM_EQ(Nil, v_2313217_25);
+if (True == v_2313218_25) {
+Obj v_2313219_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313220_25 = PRIM_CDR(v_2313219_25);
+Obj v_2313221_25 = PRIM_ISCONS(v_2313220_25);
+if (True == v_2313221_25) {
+Obj v_2313222_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313223_25 = PRIM_CDR(v_2313222_25);
+Obj v_2313224_25 = PRIM_CAR(v_2313223_25);
+Obj v_y = v_2313224_25;
+Obj v_2313225_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313226_25 = PRIM_CDR(v_2313225_25);
+Obj v_2313227_25 = PRIM_CDR(v_2313226_25);
+Obj v_2313228_25 = PRIM_EQ(Nil, v_2313227_25);
+if (True == v_2313228_25) {
+Obj v_2313229_25 = primIsString(v_pkg);
+if (True == v_2313229_25) {
+Obj v_2313230_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2313231_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313230_25);
+R[1] = v_pkg;
+R[2] = v_y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513225_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2313231_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, v_2312451_25);
 return;
 }
 }
 case 1:
 {
-Obj _3513228_37= co->res;
-Obj _3513226_37 = R[1];
-Obj _3513229_37 = makeCons(co->gc, _3513228_37, Nil);
-Obj _3513230_37 = makeCons(co->gc, _3513226_37, _3513229_37);
-Obj _3513231_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513230_37);
-coraReturn(co, _3513231_37);
+Obj v_2313234_25= co->res;
+Obj v_2313232_25 = R[1];
+Obj v_2313235_25 = makeCons(co->gc, v_2313234_25, Nil);
+Obj v_2313236_25 = makeCons(co->gc, v_2313232_25, v_2313235_25);
+Obj v_2313237_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313236_25);
+coraReturn(co, v_2313237_25);
 return;
 }
 case 2:
 {
-Obj _3513226_37= co->res;
-Obj pkg = R[1];
-Obj y = R[2];
-Obj _3513227_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513226_37;
+Obj v_2313232_25= co->res;
+Obj v_pkg = R[1];
+Obj v_y = R[2];
+Obj v_2313233_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2313232_25;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513227_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2313233_25, v_y);
 return;
 }
 }
@@ -969,34 +969,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512446_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513180_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513180_37) {
-Obj _3513181_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513181_37;
-Obj _3513182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513182_37;
-Obj _3512463_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512446_37);
-Obj _3513186_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513186_37) {
+Obj v_2312452_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313186_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313186_25) {
+Obj v_2313187_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2313187_25;
+Obj v_2313188_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2313188_25;
+Obj v_2312469_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2312452_25);
+Obj v_2313192_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
+if (True == v_2313192_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, v_2312469_25, True);
 return;
 } else {
-Obj _3513187_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513187_37) {
+Obj v_2313193_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2313193_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, v_2312469_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, False);
+coraCall1(co, v_2312469_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512446_37);
+coraCall0(co, v_2312452_25);
 return;
 }
 }
@@ -1007,8 +1007,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512464_37 = R[1];
-if (True == _3512464_37) {
+Obj v_2312470_25 = R[1];
+if (True == v_2312470_25) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1020,16 +1020,16 @@ return;
 }
 case 1:
 {
-Obj _3513184_37= co->res;
-Obj _3513185_37 = makeCons(co->gc, closureRef(R[0], 0), _3513184_37);
-coraReturn(co, _3513185_37);
+Obj v_2313190_25= co->res;
+Obj v_2313191_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313190_25);
+coraReturn(co, v_2313191_25);
 return;
 }
 case 2:
 {
-Obj _3513183_37= co->res;
+Obj v_2313189_25= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513183_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313189_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -1039,100 +1039,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512447_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513147_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513147_37) {
-Obj _3513148_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513149_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513148_37);
-if (True == _3513149_37) {
-Obj _3513150_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513151_37 = PRIM_ISCONS(_3513150_37);
-if (True == _3513151_37) {
-Obj _3513152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513153_37 = PRIM_CAR(_3513152_37);
-Obj a = _3513153_37;
-Obj _3513154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513155_37 = PRIM_CDR(_3513154_37);
-Obj _3513156_37 = PRIM_ISCONS(_3513155_37);
-if (True == _3513156_37) {
-Obj _3513157_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj _3513159_37 = PRIM_CAR(_3513158_37);
-Obj b = _3513159_37;
-Obj _3513160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513161_37 = PRIM_CDR(_3513160_37);
-Obj _3513162_37 = PRIM_CDR(_3513161_37);
-Obj _3513163_37 = PRIM_ISCONS(_3513162_37);
-if (True == _3513163_37) {
-Obj _3513164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513165_37 = PRIM_CDR(_3513164_37);
-Obj _3513166_37 = PRIM_CDR(_3513165_37);
-Obj _3513167_37 = PRIM_CAR(_3513166_37);
-Obj c = _3513167_37;
-Obj _3513168_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513169_37 = PRIM_CDR(_3513168_37);
-Obj _3513170_37 = PRIM_CDR(_3513169_37);
-Obj _3513171_37 = PRIM_CDR(_3513170_37);
-Obj _3513172_37 = PRIM_EQ(Nil, _3513171_37);
-if (True == _3513172_37) {
-R[1] = c;
-R[2] = a;
+Obj v_2312453_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313153_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313153_25) {
+Obj v_2313154_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313155_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313154_25);
+if (True == v_2313155_25) {
+Obj v_2313156_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313157_25 = PRIM_ISCONS(v_2313156_25);
+if (True == v_2313157_25) {
+Obj v_2313158_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313159_25 = PRIM_CAR(v_2313158_25);
+Obj v_a = v_2313159_25;
+Obj v_2313160_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313161_25 = PRIM_CDR(v_2313160_25);
+Obj v_2313162_25 = PRIM_ISCONS(v_2313161_25);
+if (True == v_2313162_25) {
+Obj v_2313163_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313164_25 = PRIM_CDR(v_2313163_25);
+Obj v_2313165_25 = PRIM_CAR(v_2313164_25);
+Obj v_b = v_2313165_25;
+Obj v_2313166_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313167_25 = PRIM_CDR(v_2313166_25);
+Obj v_2313168_25 = PRIM_CDR(v_2313167_25);
+Obj v_2313169_25 = PRIM_ISCONS(v_2313168_25);
+if (True == v_2313169_25) {
+Obj v_2313170_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313171_25 = PRIM_CDR(v_2313170_25);
+Obj v_2313172_25 = PRIM_CDR(v_2313171_25);
+Obj v_2313173_25 = PRIM_CAR(v_2313172_25);
+Obj v_c = v_2313173_25;
+Obj v_2313174_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313175_25 = PRIM_CDR(v_2313174_25);
+Obj v_2313176_25 = PRIM_CDR(v_2313175_25);
+Obj v_2313177_25 = PRIM_CDR(v_2313176_25);
+Obj v_2313178_25 = PRIM_EQ(Nil, v_2313177_25);
+if (True == v_2313178_25) {
+R[1] = v_c;
+R[2] = v_a;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), b);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, v_2312453_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, v_2312453_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, v_2312453_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, v_2312453_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, v_2312453_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, v_2312453_25);
 return;
 }
 }
 case 1:
 {
-Obj _3513175_37= co->res;
-Obj _3513173_37 = R[1];
-Obj a = R[2];
-Obj _3513176_37 = makeCons(co->gc, _3513175_37, Nil);
-Obj _3513177_37 = makeCons(co->gc, _3513173_37, _3513176_37);
-Obj _3513178_37 = makeCons(co->gc, a, _3513177_37);
-Obj _3513179_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513178_37);
-coraReturn(co, _3513179_37);
+Obj v_2313181_25= co->res;
+Obj v_2313179_25 = R[1];
+Obj v_a = R[2];
+Obj v_2313182_25 = makeCons(co->gc, v_2313181_25, Nil);
+Obj v_2313183_25 = makeCons(co->gc, v_2313179_25, v_2313182_25);
+Obj v_2313184_25 = makeCons(co->gc, v_a, v_2313183_25);
+Obj v_2313185_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313184_25);
+coraReturn(co, v_2313185_25);
 return;
 }
 case 2:
 {
-Obj _3513173_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3513174_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513173_37;
-R[2] = a;
+Obj v_2313179_25= co->res;
+Obj v_c = R[1];
+Obj v_a = R[2];
+Obj v_2313180_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2313179_25;
+R[2] = v_a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513174_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313180_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
@@ -1142,73 +1142,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512448_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513121_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513121_37) {
-Obj _3513122_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513123_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513122_37);
-if (True == _3513123_37) {
-Obj _3513124_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513125_37 = PRIM_ISCONS(_3513124_37);
-if (True == _3513125_37) {
-Obj _3513126_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513127_37 = PRIM_CAR(_3513126_37);
-Obj path = _3513127_37;
-Obj _3513128_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513129_37 = PRIM_CDR(_3513128_37);
-Obj _3513130_37 = PRIM_ISCONS(_3513129_37);
-if (True == _3513130_37) {
-Obj _3513131_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513132_37 = PRIM_CDR(_3513131_37);
-Obj _3513133_37 = PRIM_CAR(_3513132_37);
-Obj import = _3513133_37;
-Obj _3513134_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513135_37 = PRIM_CDR(_3513134_37);
-Obj _3513136_37 = PRIM_CDR(_3513135_37);
-Obj _3513137_37 = PRIM_ISCONS(_3513136_37);
-if (True == _3513137_37) {
-Obj _3513138_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513139_37 = PRIM_CDR(_3513138_37);
-Obj _3513140_37 = PRIM_CDR(_3513139_37);
-Obj _3513141_37 = PRIM_CAR(_3513140_37);
-Obj body = _3513141_37;
-Obj _3513142_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513143_37 = PRIM_CDR(_3513142_37);
-Obj _3513144_37 = PRIM_CDR(_3513143_37);
-Obj _3513145_37 = PRIM_CDR(_3513144_37);
-Obj _3513146_37 = PRIM_EQ(Nil, _3513145_37);
-if (True == _3513146_37) {
+Obj v_2312454_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313127_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2313127_25) {
+Obj v_2313128_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2313129_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313128_25);
+if (True == v_2313129_25) {
+Obj v_2313130_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313131_25 = PRIM_ISCONS(v_2313130_25);
+if (True == v_2313131_25) {
+Obj v_2313132_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313133_25 = PRIM_CAR(v_2313132_25);
+Obj v_path = v_2313133_25;
+Obj v_2313134_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313135_25 = PRIM_CDR(v_2313134_25);
+Obj v_2313136_25 = PRIM_ISCONS(v_2313135_25);
+if (True == v_2313136_25) {
+Obj v_2313137_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313138_25 = PRIM_CDR(v_2313137_25);
+Obj v_2313139_25 = PRIM_CAR(v_2313138_25);
+Obj v_import = v_2313139_25;
+Obj v_2313140_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313141_25 = PRIM_CDR(v_2313140_25);
+Obj v_2313142_25 = PRIM_CDR(v_2313141_25);
+Obj v_2313143_25 = PRIM_ISCONS(v_2313142_25);
+if (True == v_2313143_25) {
+Obj v_2313144_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313145_25 = PRIM_CDR(v_2313144_25);
+Obj v_2313146_25 = PRIM_CDR(v_2313145_25);
+Obj v_2313147_25 = PRIM_CAR(v_2313146_25);
+Obj v_body = v_2313147_25;
+Obj v_2313148_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313149_25 = PRIM_CDR(v_2313148_25);
+Obj v_2313150_25 = PRIM_CDR(v_2313149_25);
+Obj v_2313151_25 = PRIM_CDR(v_2313150_25);
+Obj v_2313152_25 = PRIM_EQ(Nil, v_2313151_25);
+if (True == v_2313152_25) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, v_2312454_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, v_2312454_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, v_2312454_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, v_2312454_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, v_2312454_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, v_2312454_25);
 return;
 }
 }
@@ -1219,81 +1219,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512449_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513097_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513097_37) {
-Obj _3513098_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513099_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513098_37);
-if (True == _3513099_37) {
-Obj _3513100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513101_37 = PRIM_ISCONS(_3513100_37);
-if (True == _3513101_37) {
-Obj _3513102_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513103_37 = PRIM_CAR(_3513102_37);
-Obj var = _3513103_37;
-Obj _3513104_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513105_37 = PRIM_CDR(_3513104_37);
-Obj _3513106_37 = PRIM_ISCONS(_3513105_37);
-if (True == _3513106_37) {
-Obj _3513107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513108_37 = PRIM_CDR(_3513107_37);
-Obj _3513109_37 = PRIM_CAR(_3513108_37);
-Obj val = _3513109_37;
-Obj _3513110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513111_37 = PRIM_CDR(_3513110_37);
-Obj _3513112_37 = PRIM_CDR(_3513111_37);
-Obj _3513113_37 = PRIM_EQ(Nil, _3513112_37);
-if (True == _3513113_37) {
-R[1] = val;
+Obj v_2312455_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2313103_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313103_25) {
+Obj v_2313104_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313105_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313104_25);
+if (True == v_2313105_25) {
+Obj v_2313106_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313107_25 = PRIM_ISCONS(v_2313106_25);
+if (True == v_2313107_25) {
+Obj v_2313108_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313109_25 = PRIM_CAR(v_2313108_25);
+Obj v_var = v_2313109_25;
+Obj v_2313110_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313111_25 = PRIM_CDR(v_2313110_25);
+Obj v_2313112_25 = PRIM_ISCONS(v_2313111_25);
+if (True == v_2313112_25) {
+Obj v_2313113_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313114_25 = PRIM_CDR(v_2313113_25);
+Obj v_2313115_25 = PRIM_CAR(v_2313114_25);
+Obj v_val = v_2313115_25;
+Obj v_2313116_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313117_25 = PRIM_CDR(v_2313116_25);
+Obj v_2313118_25 = PRIM_CDR(v_2313117_25);
+Obj v_2313119_25 = PRIM_EQ(Nil, v_2313118_25);
+if (True == v_2313119_25) {
+R[1] = v_val;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, v_2312455_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, v_2312455_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, v_2312455_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, v_2312455_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, v_2312455_25);
 return;
 }
 }
 case 1:
 {
-Obj _3513117_37= co->res;
-Obj _3513116_37 = R[1];
-Obj _3513118_37 = makeCons(co->gc, _3513117_37, Nil);
-Obj _3513119_37 = makeCons(co->gc, _3513116_37, _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513119_37);
-coraReturn(co, _3513120_37);
+Obj v_2313123_25= co->res;
+Obj v_2313122_25 = R[1];
+Obj v_2313124_25 = makeCons(co->gc, v_2313123_25, Nil);
+Obj v_2313125_25 = makeCons(co->gc, v_2313122_25, v_2313124_25);
+Obj v_2313126_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313125_25);
+coraReturn(co, v_2313126_25);
 return;
 }
 case 2:
 {
-Obj _3513114_37= co->res;
-Obj val = R[1];
-Obj var1 = _3513114_37;
-Obj _3513115_37 = makeCons(co->gc, var1, Nil);
-Obj _3513116_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513115_37);
-R[1] = _3513116_37;
+Obj v_2313120_25= co->res;
+Obj v_val = R[1];
+Obj v_var1 = v_2313120_25;
+Obj v_2313121_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2313122_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313121_25);
+R[1] = v_2313122_25;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
 }
 }
@@ -1309,9 +1309,9 @@ return;
 }
 case 1:
 {
-Obj _3513096_37= co->res;
+Obj v_2313102_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513096_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313102_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -1321,23 +1321,23 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), x, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj _3513090_37= co->res;
-Obj _3513091_37 = primNot(_3513090_37);
-coraReturn(co, _3513091_37);
+Obj v_2313096_25= co->res;
+Obj v_2313097_25 = primNot(v_2313096_25);
+coraReturn(co, v_2313097_25);
 return;
 }
 case 2:
 {
-Obj _3513089_37= co->res;
+Obj v_2313095_25= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513089_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313095_25);
 return;
 }
 }
@@ -1347,44 +1347,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512432_37 = R[1];
-Obj _3512433_37 = R[2];
-Obj _3513074_37 = PRIM_EQ(Nil, _3512433_37);
-if (True == _3513074_37) {
+Obj v_2312438_25 = R[1];
+Obj v_2312439_25 = R[2];
+Obj v_2313080_25 = PRIM_EQ(Nil, v_2312439_25);
+if (True == v_2313080_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512435_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512433_37, _3512432_37);
-Obj _3513078_37 = PRIM_ISCONS(_3512433_37);
-if (True == _3513078_37) {
-Obj _3513079_37 = PRIM_CAR(_3512433_37);
-Obj _3513080_37 = PRIM_ISCONS(_3513079_37);
-if (True == _3513080_37) {
-Obj _3513081_37 = PRIM_CAR(_3512433_37);
-Obj _3513082_37 = PRIM_CAR(_3513081_37);
-Obj x = _3513082_37;
-Obj _3513083_37 = PRIM_CAR(_3512433_37);
-Obj _3513084_37 = PRIM_CDR(_3513083_37);
-Obj y = _3513084_37;
-Obj _3513085_37 = PRIM_CDR(_3512433_37);
-Obj _3513086_37 = PRIM_EQ(_3512432_37, x);
-if (True == _3513086_37) {
-Obj _3513087_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513087_37);
+Obj v_2312441_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2312439_25, v_2312438_25);
+Obj v_2313084_25 = PRIM_ISCONS(v_2312439_25);
+if (True == v_2313084_25) {
+Obj v_2313085_25 = PRIM_CAR(v_2312439_25);
+Obj v_2313086_25 = PRIM_ISCONS(v_2313085_25);
+if (True == v_2313086_25) {
+Obj v_2313087_25 = PRIM_CAR(v_2312439_25);
+Obj v_2313088_25 = PRIM_CAR(v_2313087_25);
+Obj v_x = v_2313088_25;
+Obj v_2313089_25 = PRIM_CAR(v_2312439_25);
+Obj v_2313090_25 = PRIM_CDR(v_2313089_25);
+Obj v_y = v_2313090_25;
+Obj v_2313091_25 = PRIM_CDR(v_2312439_25);
+Obj v_2313092_25 = PRIM_EQ(v_2312438_25, v_x);
+if (True == v_2313092_25) {
+Obj v_2313093_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2313093_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, v_2312441_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, v_2312441_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, v_2312441_25);
 return;
 }
 }
@@ -1396,13 +1396,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513075_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513075_37) {
-Obj _3513076_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513077_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513077_37;
+Obj v_2313081_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313081_25) {
+Obj v_2313082_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313083_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313083_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
@@ -1417,27 +1417,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512427_37 = R[1];
-Obj _3512428_37 = R[2];
-Obj _3512429_37 = R[3];
-Obj _3512993_37 = PRIM_EQ(Nil, _3512429_37);
-if (True == _3512993_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512427_37, _3512428_37);
-return;
-} else {
-Obj _3512994_37 = PRIM_ISCONS(_3512429_37);
-if (True == _3512994_37) {
-Obj _3512995_37 = PRIM_CAR(_3512429_37);
-Obj import = _3512995_37;
-Obj _3512996_37 = PRIM_CDR(_3512429_37);
-Obj more = _3512996_37;
-R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
-R[4] = more;
+Obj v_2312433_25 = R[1];
+Obj v_2312434_25 = R[2];
+Obj v_2312435_25 = R[3];
+Obj v_2312999_25 = PRIM_EQ(Nil, v_2312435_25);
+if (True == v_2312999_25) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2312433_25, v_2312434_25);
+return;
+} else {
+Obj v_2313000_25 = PRIM_ISCONS(v_2312435_25);
+if (True == v_2313000_25) {
+Obj v_2313001_25 = PRIM_CAR(v_2312435_25);
+Obj v_import = v_2313001_25;
+Obj v_2313002_25 = PRIM_CDR(v_2312435_25);
+Obj v_more = v_2313002_25;
+R[1] = v_import;
+R[2] = v_2312433_25;
+R[3] = v_2312434_25;
+R[4] = v_more;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1448,90 +1448,90 @@ return;
 }
 case 1:
 {
-Obj _3513003_37= co->res;
+Obj v_2313009_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513003_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313009_25);
 return;
 }
 case 2:
 {
-Obj _3513002_37= co->res;
-Obj import = R[1];
+Obj v_2313008_25= co->res;
+Obj v_import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513002_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313008_25);
 return;
 }
 case 3:
 {
-Obj _3513001_37= co->res;
-Obj import = R[1];
-R[1] = import;
+Obj v_2313007_25= co->res;
+Obj v_import = R[1];
+R[1] = v_import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513001_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313007_25);
 return;
 }
 case 4:
 {
-Obj _3513000_37= co->res;
-Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
-Obj more = R[4];
-if (True == _3513000_37) {
-R[1] = import;
+Obj v_2313006_25= co->res;
+Obj v_import = R[1];
+Obj v_2312433_25 = R[2];
+Obj v_2312434_25 = R[3];
+Obj v_more = R[4];
+if (True == v_2313006_25) {
+R[1] = v_import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512427_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2312433_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512427_37, _3512428_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2312433_25, v_2312434_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj _3512999_37= co->res;
-Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
-Obj more = R[4];
-Obj export = _3512999_37;
-R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
-R[4] = more;
+Obj v_2313005_25= co->res;
+Obj v_import = R[1];
+Obj v_2312433_25 = R[2];
+Obj v_2312434_25 = R[3];
+Obj v_more = R[4];
+Obj v_export = v_2313005_25;
+R[1] = v_import;
+R[2] = v_2312433_25;
+R[3] = v_2312434_25;
+R[4] = v_more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512427_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2312433_25, v_export);
 return;
 }
 case 6:
 {
-Obj _3512998_37= co->res;
-Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
-R[4] = more;
+Obj v_2313004_25= co->res;
+Obj v_import = R[1];
+Obj v_2312433_25 = R[2];
+Obj v_2312434_25 = R[3];
+Obj v_more = R[4];
+R[1] = v_import;
+R[2] = v_2312433_25;
+R[3] = v_2312434_25;
+R[4] = v_more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3512998_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313004_25, Nil);
 return;
 }
 case 7:
 {
-Obj _3512997_37= co->res;
-Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
-R[4] = more;
+Obj v_2313003_25= co->res;
+Obj v_import = R[1];
+Obj v_2312433_25 = R[2];
+Obj v_2312434_25 = R[3];
+Obj v_more = R[4];
+R[1] = v_import;
+R[2] = v_2312433_25;
+R[3] = v_2312434_25;
+R[4] = v_more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512997_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313003_25);
 return;
 }
 }
@@ -1541,56 +1541,56 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj var = R[1];
-Obj ns = R[2];
-Obj _3512987_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3512987_37) {
-coraReturn(co, var);
+Obj v_var = R[1];
+Obj v_ns = R[2];
+Obj v_2312993_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2312993_25) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = var;
-R[2] = ns;
+R[1] = v_var;
+R[2] = v_ns;
 saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
 return;
 }
 }
 case 1:
 {
-Obj _3512991_37= co->res;
+Obj v_2312997_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512991_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2312997_25);
 return;
 }
 case 2:
 {
-Obj _3512990_37= co->res;
-Obj ns = R[1];
+Obj v_2312996_25= co->res;
+Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3512990_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2312996_25);
 return;
 }
 case 3:
 {
-Obj _3512989_37= co->res;
-Obj ns = R[1];
-R[1] = ns;
+Obj v_2312995_25= co->res;
+Obj v_ns = R[1];
+R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3512989_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2312995_25);
 return;
 }
 case 4:
 {
-Obj _3512988_37= co->res;
-Obj var = R[1];
-Obj ns = R[2];
-if (True == _3512988_37) {
-coraReturn(co, var);
+Obj v_2312994_25= co->res;
+Obj v_var = R[1];
+Obj v_ns = R[2];
+if (True == v_2312994_25) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = ns;
+R[1] = v_ns;
 saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
 return;
 }
 }
@@ -1601,37 +1601,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_sexp);
 return;
 }
 case 1:
 {
-Obj _3512969_37= co->res;
-Obj path = R[1];
+Obj v_2312975_25= co->res;
+Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3512969_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, v_2312975_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj _3512968_37= co->res;
-Obj path = R[1];
-R[1] = path;
+Obj v_2312974_25= co->res;
+Obj v_path = R[1];
+R[1] = v_path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3512968_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2312974_25);
 return;
 }
 case 3:
 {
-Obj _3512967_37= co->res;
-Obj sexp = R[1];
-Obj path = _3512967_37;
-R[1] = path;
+Obj v_2312973_25= co->res;
+Obj v_sexp = R[1];
+Obj v_path = v_2312973_25;
+R[1] = v_path;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
 return;
 }
 }
@@ -1641,44 +1641,44 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj import = R[1];
-Obj export = R[2];
-Obj body = R[3];
-Obj _3512970_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
-R[1] = export;
-R[2] = body;
-R[3] = _3512970_37;
+Obj v_import = R[1];
+Obj v_export = R[2];
+Obj v_body = R[3];
+Obj v_2312976_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+R[1] = v_export;
+R[2] = v_body;
+R[3] = v_2312976_25;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj _3512980_37= co->res;
-Obj _3512970_37 = R[1];
-Obj _3512981_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3512980_37);
-Obj _3512982_37 = makeCons(co->gc, _3512981_37, Nil);
-Obj _3512983_37 = makeCons(co->gc, _3512970_37, _3512982_37);
-Obj _3512984_37 = makeCons(co->gc, closureRef(R[0], 0), _3512983_37);
-Obj _3512985_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3512984_37);
-coraReturn(co, _3512985_37);
+Obj v_2312986_25= co->res;
+Obj v_2312976_25 = R[1];
+Obj v_2312987_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2312986_25);
+Obj v_2312988_25 = makeCons(co->gc, v_2312987_25, Nil);
+Obj v_2312989_25 = makeCons(co->gc, v_2312976_25, v_2312988_25);
+Obj v_2312990_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312989_25);
+Obj v_2312991_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2312990_25);
+coraReturn(co, v_2312991_25);
 return;
 }
 case 2:
 {
-Obj _3512973_37= co->res;
-Obj export = R[1];
-Obj body = R[2];
-Obj _3512970_37 = R[3];
-Obj _3512974_37 = makeCons(co->gc, export, Nil);
-Obj _3512975_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3512974_37);
-Obj _3512976_37 = makeCons(co->gc, _3512975_37, Nil);
-Obj _3512977_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3512976_37);
-Obj _3512978_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512977_37);
-Obj _3512979_37 = makeCons(co->gc, _3512978_37, body);
-R[1] = _3512970_37;
+Obj v_2312979_25= co->res;
+Obj v_export = R[1];
+Obj v_body = R[2];
+Obj v_2312976_25 = R[3];
+Obj v_2312980_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2312981_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2312980_25);
+Obj v_2312982_25 = makeCons(co->gc, v_2312981_25, Nil);
+Obj v_2312983_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2312982_25);
+Obj v_2312984_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312983_25);
+Obj v_2312985_25 = makeCons(co->gc, v_2312984_25, v_body);
+R[1] = v_2312976_25;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512973_37, _3512979_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312979_25, v_2312985_25);
 return;
 }
 }
@@ -1688,10 +1688,10 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj imp = R[1];
-Obj _3512971_37 = makeCons(co->gc, imp, Nil);
-Obj _3512972_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3512971_37);
-coraReturn(co, _3512972_37);
+Obj v_imp = R[1];
+Obj v_2312977_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2312978_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2312977_25);
+coraReturn(co, v_2312978_25);
 return;
 }
 }
@@ -1701,10 +1701,10 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj data = R[1];
-Obj k = R[2];
+Obj v_data = R[1];
+Obj v_k = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), data, Nil, Nil, k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_data, Nil, Nil, v_k);
 return;
 }
 }
@@ -1714,62 +1714,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512420_37 = R[1];
-Obj _3512421_37 = R[2];
-Obj _3512422_37 = R[3];
-Obj _3512423_37 = R[4];
-Obj _3512424_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512422_37, _3512420_37, _3512421_37, _3512423_37);
-Obj _3512947_37 = PRIM_ISCONS(_3512420_37);
-if (True == _3512947_37) {
-Obj _3512948_37 = PRIM_CAR(_3512420_37);
-Obj _3512949_37 = PRIM_ISCONS(_3512948_37);
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(_3512420_37);
-Obj _3512951_37 = PRIM_CAR(_3512950_37);
-Obj _3512952_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3512951_37);
-if (True == _3512952_37) {
-Obj _3512953_37 = PRIM_CAR(_3512420_37);
-Obj _3512954_37 = PRIM_CDR(_3512953_37);
-Obj _3512955_37 = PRIM_ISCONS(_3512954_37);
-if (True == _3512955_37) {
-Obj _3512956_37 = PRIM_CAR(_3512420_37);
-Obj _3512957_37 = PRIM_CDR(_3512956_37);
-Obj _3512958_37 = PRIM_CAR(_3512957_37);
-Obj lib = _3512958_37;
-Obj _3512959_37 = PRIM_CAR(_3512420_37);
-Obj _3512960_37 = PRIM_CDR(_3512959_37);
-Obj _3512961_37 = PRIM_CDR(_3512960_37);
-Obj _3512962_37 = PRIM_EQ(Nil, _3512961_37);
-if (True == _3512962_37) {
-Obj _3512963_37 = PRIM_CDR(_3512420_37);
-Obj rest = _3512963_37;
-Obj _3512964_37 = makeCons(co->gc, lib, _3512421_37);
+Obj v_2312426_25 = R[1];
+Obj v_2312427_25 = R[2];
+Obj v_2312428_25 = R[3];
+Obj v_2312429_25 = R[4];
+Obj v_2312430_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2312428_25, v_2312426_25, v_2312427_25, v_2312429_25);
+Obj v_2312953_25 = PRIM_ISCONS(v_2312426_25);
+if (True == v_2312953_25) {
+Obj v_2312954_25 = PRIM_CAR(v_2312426_25);
+Obj v_2312955_25 = PRIM_ISCONS(v_2312954_25);
+if (True == v_2312955_25) {
+Obj v_2312956_25 = PRIM_CAR(v_2312426_25);
+Obj v_2312957_25 = PRIM_CAR(v_2312956_25);
+Obj v_2312958_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2312957_25);
+if (True == v_2312958_25) {
+Obj v_2312959_25 = PRIM_CAR(v_2312426_25);
+Obj v_2312960_25 = PRIM_CDR(v_2312959_25);
+Obj v_2312961_25 = PRIM_ISCONS(v_2312960_25);
+if (True == v_2312961_25) {
+Obj v_2312962_25 = PRIM_CAR(v_2312426_25);
+Obj v_2312963_25 = PRIM_CDR(v_2312962_25);
+Obj v_2312964_25 = PRIM_CAR(v_2312963_25);
+Obj v_lib = v_2312964_25;
+Obj v_2312965_25 = PRIM_CAR(v_2312426_25);
+Obj v_2312966_25 = PRIM_CDR(v_2312965_25);
+Obj v_2312967_25 = PRIM_CDR(v_2312966_25);
+Obj v_2312968_25 = PRIM_EQ(Nil, v_2312967_25);
+if (True == v_2312968_25) {
+Obj v_2312969_25 = PRIM_CDR(v_2312426_25);
+Obj v_rest = v_2312969_25;
+Obj v_2312970_25 = makeCons(co->gc, v_lib, v_2312427_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3512964_37, _3512422_37, _3512423_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2312970_25, v_2312428_25, v_2312429_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, v_2312430_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, v_2312430_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, v_2312430_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, v_2312430_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, v_2312430_25);
 return;
 }
 }
@@ -1780,37 +1780,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512425_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3512938_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512938_37) {
-Obj _3512939_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512940_37 = PRIM_ISCONS(_3512939_37);
-if (True == _3512940_37) {
-Obj _3512941_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512942_37 = PRIM_CAR(_3512941_37);
-Obj _3512943_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3512942_37);
-if (True == _3512943_37) {
-Obj _3512944_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512945_37 = PRIM_CDR(_3512944_37);
-Obj more = _3512945_37;
-Obj _3512946_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3512946_37;
+Obj v_2312431_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2312944_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2312944_25) {
+Obj v_2312945_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2312946_25 = PRIM_ISCONS(v_2312945_25);
+if (True == v_2312946_25) {
+Obj v_2312947_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2312948_25 = PRIM_CAR(v_2312947_25);
+Obj v_2312949_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2312948_25);
+if (True == v_2312949_25) {
+Obj v_2312950_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2312951_25 = PRIM_CDR(v_2312950_25);
+Obj v_more = v_2312951_25;
+Obj v_2312952_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2312952_25;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, v_2312431_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, v_2312431_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, v_2312431_25);
 return;
 }
 }
@@ -1827,9 +1827,9 @@ return;
 }
 case 1:
 {
-Obj _3512937_37= co->res;
+Obj v_2312943_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3512937_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2312943_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1839,27 +1839,27 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512935_37= co->res;
-Obj _3512934_37 = R[1];
+Obj v_2312941_25= co->res;
+Obj v_2312940_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3512934_37, _3512935_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2312940_25, v_2312941_25);
 return;
 }
 case 2:
 {
-Obj _3512934_37= co->res;
-Obj exp = R[1];
-R[1] = _3512934_37;
+Obj v_2312940_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_2312940_25;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -1869,67 +1869,67 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj arglist = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v_fn = R[1];
+Obj v_arglist = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_arglist);
 return;
 }
 case 1:
 {
-Obj _3512923_37= co->res;
-Obj _3512922_37 = R[1];
-Obj fn = R[2];
-Obj _3512924_37 = makeCons(co->gc, _3512923_37, Nil);
-Obj _3512925_37 = makeCons(co->gc, _3512922_37, _3512924_37);
-Obj _3512926_37 = makeCons(co->gc, fn, _3512925_37);
-coraReturn(co, _3512926_37);
+Obj v_2312929_25= co->res;
+Obj v_2312928_25 = R[1];
+Obj v_fn = R[2];
+Obj v_2312930_25 = makeCons(co->gc, v_2312929_25, Nil);
+Obj v_2312931_25 = makeCons(co->gc, v_2312928_25, v_2312930_25);
+Obj v_2312932_25 = makeCons(co->gc, v_fn, v_2312931_25);
+coraReturn(co, v_2312932_25);
 return;
 }
 case 2:
 {
-Obj _3512929_37= co->res;
-Obj _3512927_37 = R[1];
-Obj fn = R[2];
-Obj _3512930_37 = makeCons(co->gc, _3512929_37, Nil);
-Obj _3512931_37 = makeCons(co->gc, _3512927_37, _3512930_37);
-Obj _3512932_37 = makeCons(co->gc, fn, _3512931_37);
-coraReturn(co, _3512932_37);
+Obj v_2312935_25= co->res;
+Obj v_2312933_25 = R[1];
+Obj v_fn = R[2];
+Obj v_2312936_25 = makeCons(co->gc, v_2312935_25, Nil);
+Obj v_2312937_25 = makeCons(co->gc, v_2312933_25, v_2312936_25);
+Obj v_2312938_25 = makeCons(co->gc, v_fn, v_2312937_25);
+coraReturn(co, v_2312938_25);
 return;
 }
 case 3:
 {
-Obj _3512921_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-if (True == _3512921_37) {
-Obj _3512922_37 = PRIM_CAR(arglist);
-R[1] = _3512922_37;
-R[2] = fn;
+Obj v_2312927_25= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+if (True == v_2312927_25) {
+Obj v_2312928_25 = PRIM_CAR(v_arglist);
+R[1] = v_2312928_25;
+R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj _3512927_37 = PRIM_CAR(arglist);
-Obj _3512928_37 = PRIM_CDR(arglist);
-R[1] = _3512927_37;
-R[2] = fn;
+Obj v_2312933_25 = PRIM_CAR(v_arglist);
+Obj v_2312934_25 = PRIM_CDR(v_arglist);
+R[1] = v_2312933_25;
+R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512928_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2312934_25);
 return;
 }
 }
 case 4:
 {
-Obj _3512920_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v_2312926_25= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312926_25);
 return;
 }
 }
@@ -1939,16 +1939,16 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512918_37= co->res;
+Obj v_2312924_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2312924_25);
 return;
 }
 }
@@ -1958,50 +1958,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512415_37 = R[1];
-Obj _3512898_37 = primIsSymbol(_3512415_37);
-if (True == _3512898_37) {
-Obj _3512899_37 = makeCons(co->gc, _3512415_37, Nil);
-Obj _3512900_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512899_37);
-coraReturn(co, _3512900_37);
+Obj v_2312421_25 = R[1];
+Obj v_2312904_25 = primIsSymbol(v_2312421_25);
+if (True == v_2312904_25) {
+Obj v_2312905_25 = makeCons(co->gc, v_2312421_25, Nil);
+Obj v_2312906_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312905_25);
+coraReturn(co, v_2312906_25);
 return;
 } else {
-Obj _3512417_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512415_37);
-Obj _3512907_37 = PRIM_ISCONS(_3512415_37);
-if (True == _3512907_37) {
-Obj _3512908_37 = PRIM_CAR(_3512415_37);
-Obj _3512909_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512908_37);
-if (True == _3512909_37) {
-Obj _3512910_37 = PRIM_CDR(_3512415_37);
-Obj _3512911_37 = PRIM_ISCONS(_3512910_37);
-if (True == _3512911_37) {
-Obj _3512912_37 = PRIM_CDR(_3512415_37);
-Obj _3512913_37 = PRIM_CAR(_3512912_37);
-Obj x = _3512913_37;
-Obj _3512914_37 = PRIM_CDR(_3512415_37);
-Obj _3512915_37 = PRIM_CDR(_3512914_37);
-Obj _3512916_37 = PRIM_EQ(Nil, _3512915_37);
-if (True == _3512916_37) {
-coraReturn(co, x);
+Obj v_2312423_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2312421_25);
+Obj v_2312913_25 = PRIM_ISCONS(v_2312421_25);
+if (True == v_2312913_25) {
+Obj v_2312914_25 = PRIM_CAR(v_2312421_25);
+Obj v_2312915_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2312914_25);
+if (True == v_2312915_25) {
+Obj v_2312916_25 = PRIM_CDR(v_2312421_25);
+Obj v_2312917_25 = PRIM_ISCONS(v_2312916_25);
+if (True == v_2312917_25) {
+Obj v_2312918_25 = PRIM_CDR(v_2312421_25);
+Obj v_2312919_25 = PRIM_CAR(v_2312918_25);
+Obj v_x = v_2312919_25;
+Obj v_2312920_25 = PRIM_CDR(v_2312421_25);
+Obj v_2312921_25 = PRIM_CDR(v_2312920_25);
+Obj v_2312922_25 = PRIM_EQ(Nil, v_2312921_25);
+if (True == v_2312922_25) {
+coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, v_2312423_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, v_2312423_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, v_2312423_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, v_2312423_25);
 return;
 }
 }
@@ -2013,15 +2013,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512901_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512901_37) {
-Obj _3512902_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512902_37;
-Obj _3512903_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512903_37;
-Obj _3512904_37 = makeCons(co->gc, x, more);
+Obj v_2312907_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312907_25) {
+Obj v_2312908_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312908_25;
+Obj v_2312909_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2312909_25;
+Obj v_2312910_25 = makeCons(co->gc, v_x, v_more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512904_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2312910_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2030,9 +2030,9 @@ return;
 }
 case 1:
 {
-Obj _3512905_37= co->res;
-Obj _3512906_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512905_37);
-coraReturn(co, _3512906_37);
+Obj v_2312911_25= co->res;
+Obj v_2312912_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312911_25);
+coraReturn(co, v_2312912_25);
 return;
 }
 }
@@ -2042,10 +2042,10 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512896_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v_2312902_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512896_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2312902_25);
 return;
 }
 }
@@ -2055,25 +2055,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512411_37 = R[1];
-Obj _3512412_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512411_37);
-Obj _3512891_37 = PRIM_ISCONS(_3512411_37);
-if (True == _3512891_37) {
-Obj _3512892_37 = PRIM_CAR(_3512411_37);
-Obj x = _3512892_37;
-Obj _3512893_37 = PRIM_CDR(_3512411_37);
-Obj _3512894_37 = PRIM_EQ(Nil, _3512893_37);
-if (True == _3512894_37) {
-coraReturn(co, x);
+Obj v_2312417_25 = R[1];
+Obj v_2312418_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2312417_25);
+Obj v_2312897_25 = PRIM_ISCONS(v_2312417_25);
+if (True == v_2312897_25) {
+Obj v_2312898_25 = PRIM_CAR(v_2312417_25);
+Obj v_x = v_2312898_25;
+Obj v_2312899_25 = PRIM_CDR(v_2312417_25);
+Obj v_2312900_25 = PRIM_EQ(Nil, v_2312899_25);
+if (True == v_2312900_25) {
+coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, v_2312418_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, v_2312418_25);
 return;
 }
 }
@@ -2084,39 +2084,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512413_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512879_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512879_37) {
-Obj _3512880_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512880_37;
-Obj _3512881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512882_37 = PRIM_ISCONS(_3512881_37);
-if (True == _3512882_37) {
-Obj _3512883_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512884_37 = PRIM_CAR(_3512883_37);
-Obj y = _3512884_37;
-Obj _3512885_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512886_37 = PRIM_CDR(_3512885_37);
-Obj _3512887_37 = PRIM_EQ(Nil, _3512886_37);
-if (True == _3512887_37) {
-Obj _3512888_37 = makeCons(co->gc, y, Nil);
-Obj _3512889_37 = makeCons(co->gc, x, _3512888_37);
-Obj _3512890_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512889_37);
-coraReturn(co, _3512890_37);
+Obj v_2312419_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v_2312885_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312885_25) {
+Obj v_2312886_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312886_25;
+Obj v_2312887_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312888_25 = PRIM_ISCONS(v_2312887_25);
+if (True == v_2312888_25) {
+Obj v_2312889_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312890_25 = PRIM_CAR(v_2312889_25);
+Obj v_y = v_2312890_25;
+Obj v_2312891_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312892_25 = PRIM_CDR(v_2312891_25);
+Obj v_2312893_25 = PRIM_EQ(Nil, v_2312892_25);
+if (True == v_2312893_25) {
+Obj v_2312894_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2312895_25 = makeCons(co->gc, v_x, v_2312894_25);
+Obj v_2312896_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312895_25);
+coraReturn(co, v_2312896_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, v_2312419_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, v_2312419_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, v_2312419_25);
 return;
 }
 }
@@ -2127,15 +2127,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512872_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512872_37) {
-Obj _3512873_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512873_37;
-Obj _3512874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512874_37;
-R[1] = x;
+Obj v_2312878_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312878_25) {
+Obj v_2312879_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312879_25;
+Obj v_2312880_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2312880_25;
+R[1] = v_x;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
 return;
 } else {
 co->ctx.sp = R;
@@ -2145,12 +2145,12 @@ return;
 }
 case 1:
 {
-Obj _3512875_37= co->res;
-Obj x = R[1];
-Obj _3512876_37 = makeCons(co->gc, _3512875_37, Nil);
-Obj _3512877_37 = makeCons(co->gc, x, _3512876_37);
-Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512877_37);
-coraReturn(co, _3512878_37);
+Obj v_2312881_25= co->res;
+Obj v_x = R[1];
+Obj v_2312882_25 = makeCons(co->gc, v_2312881_25, Nil);
+Obj v_2312883_25 = makeCons(co->gc, v_x, v_2312882_25);
+Obj v_2312884_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312883_25);
+coraReturn(co, v_2312884_25);
 return;
 }
 }
@@ -2160,23 +2160,23 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512870_37= co->res;
+Obj v_2312876_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512870_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2312876_25);
 return;
 }
 case 2:
 {
-Obj _3512869_37= co->res;
+Obj v_2312875_25= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2312875_25);
 return;
 }
 }
@@ -2186,8 +2186,8 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-coraReturn(co, x);
+Obj v_x = R[1];
+coraReturn(co, v_x);
 return;
 }
 }
@@ -2197,9 +2197,9 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v_exp);
 return;
 }
 }
@@ -2209,69 +2209,69 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512858_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3512859_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512860_37 = makeCons(co->gc, _3512859_37, body);
-Obj _3512861_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512860_37);
-Obj _3512862_37 = makeCons(co->gc, _3512861_37, Nil);
-Obj _3512863_37 = makeCons(co->gc, args, _3512862_37);
-Obj _3512864_37 = makeCons(co->gc, _3512858_37, _3512863_37);
-Obj _3512865_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512864_37);
-coraReturn(co, _3512865_37);
+Obj v_2312864_25= co->res;
+Obj v_body = R[1];
+Obj v_args = R[2];
+Obj v_2312865_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
+Obj v_2312866_25 = makeCons(co->gc, v_2312865_25, v_body);
+Obj v_2312867_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2312866_25);
+Obj v_2312868_25 = makeCons(co->gc, v_2312867_25, Nil);
+Obj v_2312869_25 = makeCons(co->gc, v_args, v_2312868_25);
+Obj v_2312870_25 = makeCons(co->gc, v_2312864_25, v_2312869_25);
+Obj v_2312871_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2312870_25);
+coraReturn(co, v_2312871_25);
 return;
 }
 case 2:
 {
-Obj _3512857_37= co->res;
-Obj exp = R[1];
-Obj body = R[2];
-Obj args = _3512857_37;
-R[1] = body;
-R[2] = args;
+Obj v_2312863_25= co->res;
+Obj v_exp = R[1];
+Obj v_body = R[2];
+Obj v_args = v_2312863_25;
+R[1] = v_body;
+R[2] = v_args;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512856_37= co->res;
-Obj exp = R[1];
-Obj body = R[2];
-Obj nargs = _3512856_37;
-R[1] = exp;
-R[2] = body;
+Obj v_2312862_25= co->res;
+Obj v_exp = R[1];
+Obj v_body = R[2];
+Obj v_nargs = v_2312862_25;
+R[1] = v_exp;
+R[2] = v_body;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), nargs);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_nargs);
 return;
 }
 case 4:
 {
-Obj _3512855_37= co->res;
-Obj exp = R[1];
-Obj body = _3512855_37;
-R[1] = exp;
-R[2] = body;
+Obj v_2312861_25= co->res;
+Obj v_exp = R[1];
+Obj v_body = v_2312861_25;
+R[1] = v_exp;
+R[2] = v_body;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v_body);
 return;
 }
 case 5:
 {
-Obj _3512854_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v_2312860_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512854_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2312860_25);
 return;
 }
 }
@@ -2281,26 +2281,26 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj _3512848_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512848_37) {
+Obj v_n = R[1];
+Obj v_2312854_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2312854_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512849_37 = primGenSym(co);
-Obj _3512850_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512849_37;
+Obj v_2312855_25 = primGenSym(co);
+Obj v_2312856_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2312855_25;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512850_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2312856_25);
 return;
 }
 }
 case 1:
 {
-Obj _3512851_37= co->res;
-Obj _3512849_37 = R[1];
-Obj _3512852_37 = makeCons(co->gc, _3512849_37, _3512851_37);
-coraReturn(co, _3512852_37);
+Obj v_2312857_25= co->res;
+Obj v_2312855_25 = R[1];
+Obj v_2312858_25 = makeCons(co->gc, v_2312855_25, v_2312857_25);
+coraReturn(co, v_2312858_25);
 return;
 }
 }
@@ -2310,52 +2310,52 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
+Obj v_rules = R[1];
 saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
 return;
 }
 case 1:
 {
-Obj _3512845_37= co->res;
-Obj n = R[1];
-Obj _3512846_37 = primNot(_3512845_37);
-if (True == _3512846_37) {
+Obj v_2312851_25= co->res;
+Obj v_n = R[1];
+Obj v_2312852_25 = primNot(v_2312851_25);
+if (True == v_2312852_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, n);
+coraReturn(co, v_n);
 return;
 }
 }
 case 2:
 {
-Obj _3512844_37= co->res;
-Obj n = R[1];
-R[1] = n;
+Obj v_2312850_25= co->res;
+Obj v_n = R[1];
+R[1] = v_n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512844_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312850_25);
 return;
 }
 case 3:
 {
-Obj _3512839_37= co->res;
-Obj counts = _3512839_37;
-Obj _3512840_37 = PRIM_CAR(counts);
-Obj n = _3512840_37;
-Obj _3512843_37 = PRIM_CDR(counts);
-R[1] = n;
+Obj v_2312845_25= co->res;
+Obj v_counts = v_2312845_25;
+Obj v_2312846_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2312846_25;
+Obj v_2312849_25 = PRIM_CDR(v_counts);
+R[1] = v_n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512843_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2312849_25);
 return;
 }
 case 4:
 {
-Obj _3512837_37= co->res;
-Obj pats = _3512837_37;
+Obj v_2312843_25= co->res;
+Obj v_pats = v_2312843_25;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
 return;
 }
 }
@@ -2365,10 +2365,10 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512841_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512842_37 = primNot(_3512841_37);
-coraReturn(co, _3512842_37);
+Obj v_x = R[1];
+Obj v_2312847_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2312848_25 = primNot(v_2312847_25);
+coraReturn(co, v_2312848_25);
 return;
 }
 }
@@ -2378,10 +2378,10 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512838_37 = PRIM_CDR(x);
+Obj v_x = R[1];
+Obj v_2312844_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2312844_25);
 return;
 }
 }
@@ -2391,27 +2391,27 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l1 = R[1];
-Obj l2 = R[2];
-Obj _3512831_37 = PRIM_EQ(l1, Nil);
-if (True == _3512831_37) {
-coraReturn(co, l2);
+Obj v_l1 = R[1];
+Obj v_l2 = R[2];
+Obj v_2312837_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2312837_25) {
+coraReturn(co, v_l2);
 return;
 } else {
-Obj _3512832_37 = PRIM_CAR(l1);
-Obj _3512833_37 = PRIM_CDR(l1);
-R[1] = _3512832_37;
+Obj v_2312838_25 = PRIM_CAR(v_l1);
+Obj v_2312839_25 = PRIM_CDR(v_l1);
+R[1] = v_2312838_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512833_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312839_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512834_37= co->res;
-Obj _3512832_37 = R[1];
-Obj _3512835_37 = makeCons(co->gc, _3512832_37, _3512834_37);
-coraReturn(co, _3512835_37);
+Obj v_2312840_25= co->res;
+Obj v_2312838_25 = R[1];
+Obj v_2312841_25 = makeCons(co->gc, v_2312838_25, v_2312840_25);
+coraReturn(co, v_2312841_25);
 return;
 }
 }
@@ -2421,10 +2421,10 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj l = R[2];
+Obj v_fn = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, fn, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v_fn, v_l);
 return;
 }
 }
@@ -2434,41 +2434,41 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj fn = R[2];
-Obj l = R[3];
-Obj _3512822_37 = PRIM_ISCONS(l);
-if (True == _3512822_37) {
-Obj _3512823_37 = PRIM_CAR(l);
-R[1] = l;
-R[2] = res;
-R[3] = fn;
+Obj v_res = R[1];
+Obj v_fn = R[2];
+Obj v_l = R[3];
+Obj v_2312828_25 = PRIM_ISCONS(v_l);
+if (True == v_2312828_25) {
+Obj v_2312829_25 = PRIM_CAR(v_l);
+R[1] = v_l;
+R[2] = v_res;
+R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512823_37);
+coraCall1(co, v_fn, v_2312829_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3512824_37= co->res;
-Obj l = R[1];
-Obj res = R[2];
-Obj fn = R[3];
-if (True == _3512824_37) {
-Obj _3512825_37 = PRIM_CAR(l);
-Obj _3512826_37 = makeCons(co->gc, _3512825_37, res);
-Obj _3512827_37 = PRIM_CDR(l);
+Obj v_2312830_25= co->res;
+Obj v_l = R[1];
+Obj v_res = R[2];
+Obj v_fn = R[3];
+if (True == v_2312830_25) {
+Obj v_2312831_25 = PRIM_CAR(v_l);
+Obj v_2312832_25 = makeCons(co->gc, v_2312831_25, v_res);
+Obj v_2312833_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512826_37, fn, _3512827_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2312832_25, v_fn, v_2312833_25);
 return;
 } else {
-Obj _3512828_37 = PRIM_CDR(l);
+Obj v_2312834_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512828_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2312834_25);
 return;
 }
 }
@@ -2479,9 +2479,9 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v_l);
 return;
 }
 }
@@ -2491,17 +2491,17 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj i = R[1];
-Obj l = R[2];
-Obj _3512817_37 = PRIM_EQ(l, Nil);
-if (True == _3512817_37) {
-coraReturn(co, i);
+Obj v_i = R[1];
+Obj v_l = R[2];
+Obj v_2312823_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2312823_25) {
+coraReturn(co, v_i);
 return;
 } else {
-Obj _3512818_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512819_37 = PRIM_CDR(l);
+Obj v_2312824_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2312825_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512818_37, _3512819_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2312824_25, v_2312825_25);
 return;
 }
 }
@@ -2512,37 +2512,37 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj rules = R[2];
-R[1] = res;
-R[2] = rules;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+R[1] = v_res;
+R[2] = v_rules;
 saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3512815_37= co->res;
-Obj _3512814_37 = R[1];
+Obj v_2312821_25= co->res;
+Obj v_2312820_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512814_37, _3512815_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2312820_25, v_2312821_25);
 return;
 }
 case 2:
 {
-Obj _3512812_37= co->res;
-Obj res = R[1];
-Obj rules = R[2];
-if (True == _3512812_37) {
+Obj v_2312818_25= co->res;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+if (True == v_2312818_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj _3512813_37 = PRIM_CAR(rules);
-Obj _3512814_37 = makeCons(co->gc, _3512813_37, res);
-R[1] = _3512814_37;
+Obj v_2312819_25 = PRIM_CAR(v_rules);
+Obj v_2312820_25 = makeCons(co->gc, v_2312819_25, v_res);
+R[1] = v_2312820_25;
 saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
 }
 }
@@ -2553,9 +2553,9 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
+Obj v_input = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_input, Nil, Nil);
 return;
 }
 }
@@ -2565,106 +2565,106 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
-Obj current = R[2];
-Obj result = R[3];
-Obj _3512759_37 = PRIM_EQ(Nil, input);
-if (True == _3512759_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
-return;
-} else {
-Obj _3512408_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512777_37 = PRIM_ISCONS(input);
-if (True == _3512777_37) {
-Obj _3512778_37 = PRIM_CAR(input);
-Obj _3512779_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512778_37);
-if (True == _3512779_37) {
-Obj _3512780_37 = PRIM_CDR(input);
-Obj _3512781_37 = PRIM_ISCONS(_3512780_37);
-if (True == _3512781_37) {
-Obj _3512782_37 = PRIM_CDR(input);
-Obj _3512783_37 = PRIM_CAR(_3512782_37);
-Obj act = _3512783_37;
-Obj _3512784_37 = PRIM_CDR(input);
-Obj _3512785_37 = PRIM_CDR(_3512784_37);
-Obj _3512786_37 = PRIM_ISCONS(_3512785_37);
-if (True == _3512786_37) {
-Obj _3512787_37 = PRIM_CDR(input);
-Obj _3512788_37 = PRIM_CDR(_3512787_37);
-Obj _3512789_37 = PRIM_CAR(_3512788_37);
-Obj _3512790_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512789_37);
-if (True == _3512790_37) {
-Obj _3512791_37 = PRIM_CDR(input);
-Obj _3512792_37 = PRIM_CDR(_3512791_37);
-Obj _3512793_37 = PRIM_CDR(_3512792_37);
-Obj _3512794_37 = PRIM_ISCONS(_3512793_37);
-if (True == _3512794_37) {
-Obj _3512795_37 = PRIM_CDR(input);
-Obj _3512796_37 = PRIM_CDR(_3512795_37);
-Obj _3512797_37 = PRIM_CDR(_3512796_37);
-Obj _3512798_37 = PRIM_CAR(_3512797_37);
-Obj pred = _3512798_37;
-Obj _3512799_37 = PRIM_CDR(input);
-Obj _3512800_37 = PRIM_CDR(_3512799_37);
-Obj _3512801_37 = PRIM_CDR(_3512800_37);
-Obj _3512802_37 = PRIM_CDR(_3512801_37);
-Obj remain = _3512802_37;
-R[1] = act;
-R[2] = pred;
-R[3] = result;
-R[4] = remain;
+Obj v_input = R[1];
+Obj v_current = R[2];
+Obj v_result = R[3];
+Obj v_2312765_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2312765_25) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
+return;
+} else {
+Obj v_2312414_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v_2312783_25 = PRIM_ISCONS(v_input);
+if (True == v_2312783_25) {
+Obj v_2312784_25 = PRIM_CAR(v_input);
+Obj v_2312785_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312784_25);
+if (True == v_2312785_25) {
+Obj v_2312786_25 = PRIM_CDR(v_input);
+Obj v_2312787_25 = PRIM_ISCONS(v_2312786_25);
+if (True == v_2312787_25) {
+Obj v_2312788_25 = PRIM_CDR(v_input);
+Obj v_2312789_25 = PRIM_CAR(v_2312788_25);
+Obj v_act = v_2312789_25;
+Obj v_2312790_25 = PRIM_CDR(v_input);
+Obj v_2312791_25 = PRIM_CDR(v_2312790_25);
+Obj v_2312792_25 = PRIM_ISCONS(v_2312791_25);
+if (True == v_2312792_25) {
+Obj v_2312793_25 = PRIM_CDR(v_input);
+Obj v_2312794_25 = PRIM_CDR(v_2312793_25);
+Obj v_2312795_25 = PRIM_CAR(v_2312794_25);
+Obj v_2312796_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2312795_25);
+if (True == v_2312796_25) {
+Obj v_2312797_25 = PRIM_CDR(v_input);
+Obj v_2312798_25 = PRIM_CDR(v_2312797_25);
+Obj v_2312799_25 = PRIM_CDR(v_2312798_25);
+Obj v_2312800_25 = PRIM_ISCONS(v_2312799_25);
+if (True == v_2312800_25) {
+Obj v_2312801_25 = PRIM_CDR(v_input);
+Obj v_2312802_25 = PRIM_CDR(v_2312801_25);
+Obj v_2312803_25 = PRIM_CDR(v_2312802_25);
+Obj v_2312804_25 = PRIM_CAR(v_2312803_25);
+Obj v_pred = v_2312804_25;
+Obj v_2312805_25 = PRIM_CDR(v_input);
+Obj v_2312806_25 = PRIM_CDR(v_2312805_25);
+Obj v_2312807_25 = PRIM_CDR(v_2312806_25);
+Obj v_2312808_25 = PRIM_CDR(v_2312807_25);
+Obj v_remain = v_2312808_25;
+R[1] = v_act;
+R[2] = v_pred;
+R[3] = v_result;
+R[4] = v_remain;
 saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, v_2312414_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, v_2312414_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, v_2312414_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, v_2312414_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, v_2312414_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, v_2312414_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512803_37= co->res;
-Obj act = R[1];
-Obj pred = R[2];
-Obj result = R[3];
-Obj remain = R[4];
-Obj _3512804_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512803_37);
-Obj pat = _3512804_37;
-Obj _3512805_37 = makeCons(co->gc, act, Nil);
-Obj _3512806_37 = makeCons(co->gc, pred, _3512805_37);
-Obj _3512807_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512806_37);
-Obj _3512808_37 = makeCons(co->gc, pat, result);
-Obj _3512809_37 = makeCons(co->gc, _3512807_37, _3512808_37);
+Obj v_2312809_25= co->res;
+Obj v_act = R[1];
+Obj v_pred = R[2];
+Obj v_result = R[3];
+Obj v_remain = R[4];
+Obj v_2312810_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312809_25);
+Obj v_pat = v_2312810_25;
+Obj v_2312811_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2312812_25 = makeCons(co->gc, v_pred, v_2312811_25);
+Obj v_2312813_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2312812_25);
+Obj v_2312814_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2312815_25 = makeCons(co->gc, v_2312813_25, v_2312814_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512809_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312815_25);
 return;
 }
 }
@@ -2674,53 +2674,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512409_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512764_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512764_37) {
-Obj _3512765_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512766_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512765_37);
-if (True == _3512766_37) {
-Obj _3512767_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512768_37 = PRIM_ISCONS(_3512767_37);
-if (True == _3512768_37) {
-Obj _3512769_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512770_37 = PRIM_CAR(_3512769_37);
-Obj act = _3512770_37;
-Obj _3512771_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512772_37 = PRIM_CDR(_3512771_37);
-Obj remain = _3512772_37;
-R[1] = act;
-R[2] = remain;
+Obj v_2312415_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2312770_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312770_25) {
+Obj v_2312771_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2312772_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312771_25);
+if (True == v_2312772_25) {
+Obj v_2312773_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312774_25 = PRIM_ISCONS(v_2312773_25);
+if (True == v_2312774_25) {
+Obj v_2312775_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312776_25 = PRIM_CAR(v_2312775_25);
+Obj v_act = v_2312776_25;
+Obj v_2312777_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312778_25 = PRIM_CDR(v_2312777_25);
+Obj v_remain = v_2312778_25;
+R[1] = v_act;
+R[2] = v_remain;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, v_2312415_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, v_2312415_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, v_2312415_25);
 return;
 }
 }
 case 1:
 {
-Obj _3512773_37= co->res;
-Obj act = R[1];
-Obj remain = R[2];
-Obj _3512774_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512773_37);
-Obj pat = _3512774_37;
-Obj _3512775_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512776_37 = makeCons(co->gc, act, _3512775_37);
+Obj v_2312779_25= co->res;
+Obj v_act = R[1];
+Obj v_remain = R[2];
+Obj v_2312780_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312779_25);
+Obj v_pat = v_2312780_25;
+Obj v_2312781_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2312782_25 = makeCons(co->gc, v_act, v_2312781_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512776_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312782_25);
 return;
 }
 }
@@ -2730,15 +2730,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512760_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512760_37) {
-Obj _3512761_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512761_37;
-Obj _3512762_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512762_37;
-Obj _3512763_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj v_2312766_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312766_25) {
+Obj v_2312767_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312767_25;
+Obj v_2312768_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2312768_25;
+Obj v_2312769_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512763_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2312769_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2753,9 +2753,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_exp);
 return;
 }
 }
@@ -2765,55 +2765,55 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512746_37= co->res;
-Obj value = R[1];
-Obj rules = _3512746_37;
-Obj _3512459_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512753_37 = PRIM_ISCONS(value);
-if (True == _3512753_37) {
-Obj _3512754_37 = PRIM_CAR(value);
-Obj _3512755_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512754_37);
-Obj _3512756_37 = primNot(_3512755_37);
-if (True == _3512756_37) {
+Obj v_2312752_25= co->res;
+Obj v_value = R[1];
+Obj v_rules = v_2312752_25;
+Obj v_2312465_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
+Obj v_2312759_25 = PRIM_ISCONS(v_value);
+if (True == v_2312759_25) {
+Obj v_2312760_25 = PRIM_CAR(v_value);
+Obj v_2312761_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2312760_25);
+Obj v_2312762_25 = primNot(v_2312761_25);
+if (True == v_2312762_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, True);
+coraCall1(co, v_2312465_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, v_2312465_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, v_2312465_25, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512745_37= co->res;
-Obj exp = R[1];
-Obj value = _3512745_37;
-R[1] = value;
+Obj v_2312751_25= co->res;
+Obj v_exp = R[1];
+Obj v_value = v_2312751_25;
+R[1] = v_value;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512744_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v_2312750_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512744_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2312750_25);
 return;
 }
 }
@@ -2823,13 +2823,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512460_37 = R[1];
-if (True == _3512460_37) {
-Obj _3512747_37 = primGenSym(co);
-Obj val = _3512747_37;
-R[1] = val;
+Obj v_2312466_25 = R[1];
+if (True == v_2312466_25) {
+Obj v_2312753_25 = primGenSym(co);
+Obj v_val = v_2312753_25;
+R[1] = v_val;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2839,13 +2839,13 @@ return;
 }
 case 1:
 {
-Obj _3512748_37= co->res;
-Obj val = R[1];
-Obj _3512749_37 = makeCons(co->gc, _3512748_37, Nil);
-Obj _3512750_37 = makeCons(co->gc, closureRef(R[0], 0), _3512749_37);
-Obj _3512751_37 = makeCons(co->gc, val, _3512750_37);
-Obj _3512752_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512751_37);
-coraReturn(co, _3512752_37);
+Obj v_2312754_25= co->res;
+Obj v_val = R[1];
+Obj v_2312755_25 = makeCons(co->gc, v_2312754_25, Nil);
+Obj v_2312756_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312755_25);
+Obj v_2312757_25 = makeCons(co->gc, v_val, v_2312756_25);
+Obj v_2312758_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312757_25);
+coraReturn(co, v_2312758_25);
 return;
 }
 }
@@ -2855,61 +2855,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj value = R[1];
-Obj rules = R[2];
-R[1] = value;
-R[2] = rules;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+R[1] = v_value;
+R[2] = v_rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3512742_37= co->res;
-Obj _3512457_37 = R[1];
-if (True == _3512742_37) {
+Obj v_2312748_25= co->res;
+Obj v_2312463_25 = R[1];
+if (True == v_2312748_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, True);
+coraCall1(co, v_2312463_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, v_2312463_25, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512740_37= co->res;
-Obj rules = R[1];
-Obj _3512457_37 = R[2];
-if (True == _3512740_37) {
-Obj _3512741_37 = PRIM_CDR(rules);
-R[1] = _3512457_37;
+Obj v_2312746_25= co->res;
+Obj v_rules = R[1];
+Obj v_2312463_25 = R[2];
+if (True == v_2312746_25) {
+Obj v_2312747_25 = PRIM_CDR(v_rules);
+R[1] = v_2312463_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512741_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2312747_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, v_2312463_25, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512722_37= co->res;
-Obj value = R[1];
-Obj rules = R[2];
-if (True == _3512722_37) {
-Obj _3512723_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512724_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512723_37);
-coraReturn(co, _3512724_37);
+Obj v_2312728_25= co->res;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+if (True == v_2312728_25) {
+Obj v_2312729_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2312730_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312729_25);
+coraReturn(co, v_2312730_25);
 return;
 } else {
-Obj _3512457_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
-R[1] = rules;
-R[2] = _3512457_37;
+Obj v_2312463_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+R[1] = v_rules;
+R[2] = v_2312463_25;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
 }
 }
@@ -2920,16 +2920,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512458_37 = R[1];
-if (True == _3512458_37) {
-Obj _3512725_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512725_37;
-Obj _3512726_37 = primGenSym(co);
-Obj cc = _3512726_37;
-R[1] = pat;
-R[2] = cc;
+Obj v_2312464_25 = R[1];
+if (True == v_2312464_25) {
+Obj v_2312731_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2312731_25;
+Obj v_2312732_25 = primGenSym(co);
+Obj v_cc = v_2312732_25;
+R[1] = v_pat;
+R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), cc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v_cc);
 return;
 } else {
 co->ctx.sp = R;
@@ -2939,53 +2939,53 @@ return;
 }
 case 1:
 {
-Obj _3512732_37= co->res;
-Obj curr = R[1];
-Obj cc = R[2];
-Obj rest = _3512732_37;
-Obj _3512733_37 = makeCons(co->gc, rest, Nil);
-Obj _3512734_37 = makeCons(co->gc, Nil, _3512733_37);
-Obj _3512735_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512734_37);
-Obj _3512736_37 = makeCons(co->gc, curr, Nil);
-Obj _3512737_37 = makeCons(co->gc, _3512735_37, _3512736_37);
-Obj _3512738_37 = makeCons(co->gc, cc, _3512737_37);
-Obj _3512739_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512738_37);
-coraReturn(co, _3512739_37);
+Obj v_2312738_25= co->res;
+Obj v_curr = R[1];
+Obj v_cc = R[2];
+Obj v_rest = v_2312738_25;
+Obj v_2312739_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2312740_25 = makeCons(co->gc, Nil, v_2312739_25);
+Obj v_2312741_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312740_25);
+Obj v_2312742_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2312743_25 = makeCons(co->gc, v_2312741_25, v_2312742_25);
+Obj v_2312744_25 = makeCons(co->gc, v_cc, v_2312743_25);
+Obj v_2312745_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312744_25);
+coraReturn(co, v_2312745_25);
 return;
 }
 case 2:
 {
-Obj _3512729_37= co->res;
-Obj cc = R[1];
-Obj curr = _3512729_37;
-Obj _3512730_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512731_37 = PRIM_CDR(_3512730_37);
-R[1] = curr;
-R[2] = cc;
+Obj v_2312735_25= co->res;
+Obj v_cc = R[1];
+Obj v_curr = v_2312735_25;
+Obj v_2312736_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2312737_25 = PRIM_CDR(v_2312736_25);
+R[1] = v_curr;
+R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2312737_25);
 return;
 }
 case 3:
 {
-Obj _3512728_37= co->res;
-Obj action = R[1];
-Obj cc = R[2];
-R[1] = cc;
+Obj v_2312734_25= co->res;
+Obj v_action = R[1];
+Obj v_cc = R[2];
+R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512728_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2312734_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj _3512727_37= co->res;
-Obj pat = R[1];
-Obj cc = R[2];
-Obj action = _3512727_37;
-R[1] = action;
-R[2] = cc;
+Obj v_2312733_25= co->res;
+Obj v_pat = R[1];
+Obj v_cc = R[2];
+Obj v_action = v_2312733_25;
+R[1] = v_action;
+R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_pat);
 return;
 }
 }
@@ -2995,38 +2995,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
-Obj cc = R[2];
-Obj _3512709_37 = PRIM_CDR(rules);
-Obj _3512710_37 = PRIM_CAR(_3512709_37);
-Obj action = _3512710_37;
-Obj _3512455_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
-R[1] = action;
-R[2] = _3512455_37;
+Obj v_rules = R[1];
+Obj v_cc = R[2];
+Obj v_2312715_25 = PRIM_CDR(v_rules);
+Obj v_2312716_25 = PRIM_CAR(v_2312715_25);
+Obj v_action = v_2312716_25;
+Obj v_2312461_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+R[1] = v_action;
+R[2] = v_2312461_25;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
 return;
 }
 case 1:
 {
-Obj _3512718_37= co->res;
-Obj action = R[1];
-Obj _3512455_37 = R[2];
-if (True == _3512718_37) {
-Obj _3512719_37 = PRIM_CAR(action);
-Obj _3512720_37 = PRIM_EQ(_3512719_37, getBinding(co, packageID, 110).name);
-if (True == _3512720_37) {
+Obj v_2312724_25= co->res;
+Obj v_action = R[1];
+Obj v_2312461_25 = R[2];
+if (True == v_2312724_25) {
+Obj v_2312725_25 = PRIM_CAR(v_action);
+Obj v_2312726_25 = PRIM_EQ(v_2312725_25, getBinding(co, packageID, 110).name);
+if (True == v_2312726_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, True);
+coraCall1(co, v_2312461_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, v_2312461_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, v_2312461_25, False);
 return;
 }
 }
@@ -3037,8 +3037,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512456_37 = R[1];
-if (True == _3512456_37) {
+Obj v_2312462_25 = R[1];
+if (True == v_2312462_25) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3049,20 +3049,20 @@ return;
 }
 case 1:
 {
-Obj _3512712_37= co->res;
-Obj _3512711_37 = R[1];
-Obj _3512713_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512714_37 = makeCons(co->gc, _3512713_37, Nil);
-Obj _3512715_37 = makeCons(co->gc, _3512712_37, _3512714_37);
-Obj _3512716_37 = makeCons(co->gc, _3512711_37, _3512715_37);
-Obj _3512717_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512716_37);
-coraReturn(co, _3512717_37);
+Obj v_2312718_25= co->res;
+Obj v_2312717_25 = R[1];
+Obj v_2312719_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2312720_25 = makeCons(co->gc, v_2312719_25, Nil);
+Obj v_2312721_25 = makeCons(co->gc, v_2312718_25, v_2312720_25);
+Obj v_2312722_25 = makeCons(co->gc, v_2312717_25, v_2312721_25);
+Obj v_2312723_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312722_25);
+coraReturn(co, v_2312723_25);
 return;
 }
 case 2:
 {
-Obj _3512711_37= co->res;
-R[1] = _3512711_37;
+Obj v_2312717_25= co->res;
+R[1] = v_2312717_25;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3074,52 +3074,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), pat);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v_pat);
 return;
 }
 case 1:
 {
-Obj _3512707_37= co->res;
+Obj v_2312713_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512707_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2312713_25);
 return;
 }
 case 2:
 {
-Obj _3512694_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3512694_37) {
-Obj _3512695_37 = PRIM_CAR(pat);
-Obj _3512696_37 = PRIM_EQ(_3512695_37, getBinding(co, packageID, 139).name);
-if (True == _3512696_37) {
-Obj _3512697_37 = makeCons(co->gc, expr, Nil);
-Obj _3512698_37 = makeCons(co->gc, pat, _3512697_37);
-Obj _3512699_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512698_37);
-Obj _3512700_37 = makeCons(co->gc, cc, Nil);
-Obj _3512701_37 = makeCons(co->gc, _3512700_37, Nil);
-Obj _3512702_37 = makeCons(co->gc, body, _3512701_37);
-Obj _3512703_37 = makeCons(co->gc, _3512699_37, _3512702_37);
-Obj _3512704_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512703_37);
-coraReturn(co, _3512704_37);
+Obj v_2312700_25= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == v_2312700_25) {
+Obj v_2312701_25 = PRIM_CAR(v_pat);
+Obj v_2312702_25 = PRIM_EQ(v_2312701_25, getBinding(co, packageID, 139).name);
+if (True == v_2312702_25) {
+Obj v_2312703_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2312704_25 = makeCons(co->gc, v_pat, v_2312703_25);
+Obj v_2312705_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312704_25);
+Obj v_2312706_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2312707_25 = makeCons(co->gc, v_2312706_25, Nil);
+Obj v_2312708_25 = makeCons(co->gc, v_body, v_2312707_25);
+Obj v_2312709_25 = makeCons(co->gc, v_2312705_25, v_2312708_25);
+Obj v_2312710_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312709_25);
+coraReturn(co, v_2312710_25);
 return;
 } else {
-Obj _3512705_37 = PRIM_CAR(pat);
-Obj _3512706_37 = PRIM_EQ(_3512705_37, getBinding(co, packageID, 152).name);
-if (True == _3512706_37) {
+Obj v_2312711_25 = PRIM_CAR(v_pat);
+Obj v_2312712_25 = PRIM_EQ(v_2312711_25, getBinding(co, packageID, 152).name);
+if (True == v_2312712_25) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
 } else {
 co->ctx.sp = R;
@@ -3129,50 +3129,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v_pat);
 return;
 }
 }
 case 3:
 {
-Obj _3512679_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3512679_37) {
-Obj _3512680_37 = PRIM_EQ(pat, expr);
-if (True == _3512680_37) {
-coraReturn(co, body);
-return;
-} else {
-Obj _3512681_37 = makeCons(co->gc, expr, Nil);
-Obj _3512682_37 = makeCons(co->gc, pat, _3512681_37);
-Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512682_37);
-Obj _3512684_37 = makeCons(co->gc, cc, Nil);
-Obj _3512685_37 = makeCons(co->gc, _3512684_37, Nil);
-Obj _3512686_37 = makeCons(co->gc, body, _3512685_37);
-Obj _3512687_37 = makeCons(co->gc, _3512683_37, _3512686_37);
-Obj _3512688_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512687_37);
-coraReturn(co, _3512688_37);
-return;
-}
-} else {
-Obj _3512689_37 = primIsSymbol(pat);
-if (True == _3512689_37) {
-Obj _3512690_37 = makeCons(co->gc, body, Nil);
-Obj _3512691_37 = makeCons(co->gc, expr, _3512690_37);
-Obj _3512692_37 = makeCons(co->gc, pat, _3512691_37);
-Obj _3512693_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512692_37);
-coraReturn(co, _3512693_37);
-return;
-} else {
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v_2312685_25= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == v_2312685_25) {
+Obj v_2312686_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2312686_25) {
+coraReturn(co, v_body);
+return;
+} else {
+Obj v_2312687_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2312688_25 = makeCons(co->gc, v_pat, v_2312687_25);
+Obj v_2312689_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312688_25);
+Obj v_2312690_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2312691_25 = makeCons(co->gc, v_2312690_25, Nil);
+Obj v_2312692_25 = makeCons(co->gc, v_body, v_2312691_25);
+Obj v_2312693_25 = makeCons(co->gc, v_2312689_25, v_2312692_25);
+Obj v_2312694_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312693_25);
+coraReturn(co, v_2312694_25);
+return;
+}
+} else {
+Obj v_2312695_25 = primIsSymbol(v_pat);
+if (True == v_2312695_25) {
+Obj v_2312696_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2312697_25 = makeCons(co->gc, v_expr, v_2312696_25);
+Obj v_2312698_25 = makeCons(co->gc, v_pat, v_2312697_25);
+Obj v_2312699_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312698_25);
+coraReturn(co, v_2312699_25);
+return;
+} else {
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_pat);
 return;
 }
 }
@@ -3184,20 +3184,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-R[1] = x;
+Obj v_x = R[1];
+R[1] = v_x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_x);
 return;
 }
 case 1:
 {
-Obj _3512676_37= co->res;
-Obj x = R[1];
-if (True == _3512676_37) {
-Obj _3512677_37 = primIsSymbol(x);
-Obj _3512678_37 = primNot(_3512677_37);
-if (True == _3512678_37) {
+Obj v_2312682_25= co->res;
+Obj v_x = R[1];
+if (True == v_2312682_25) {
+Obj v_2312683_25 = primIsSymbol(v_x);
+Obj v_2312684_25 = primNot(v_2312683_25);
+if (True == v_2312684_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3216,60 +3216,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = pat;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_pat;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_pat);
 return;
 }
 case 1:
 {
-Obj _3512655_37= co->res;
-Obj x = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj y = _3512655_37;
-Obj _3512453_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512672_37 = PRIM_ISCONS(expr);
-if (True == _3512672_37) {
-Obj _3512673_37 = PRIM_CAR(expr);
-Obj _3512674_37 = PRIM_EQ(_3512673_37, getBinding(co, packageID, 152).name);
-if (True == _3512674_37) {
+Obj v_2312661_25= co->res;
+Obj v_x = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj v_y = v_2312661_25;
+Obj v_2312459_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2312678_25 = PRIM_ISCONS(v_expr);
+if (True == v_2312678_25) {
+Obj v_2312679_25 = PRIM_CAR(v_expr);
+Obj v_2312680_25 = PRIM_EQ(v_2312679_25, getBinding(co, packageID, 152).name);
+if (True == v_2312680_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, True);
+coraCall1(co, v_2312459_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, v_2312459_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, v_2312459_25, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512654_37= co->res;
-Obj pat = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj x = _3512654_37;
-R[1] = x;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v_2312660_25= co->res;
+Obj v_pat = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj v_x = v_2312660_25;
+R[1] = v_x;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_pat);
 return;
 }
 }
@@ -3279,72 +3279,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512454_37 = R[1];
-if (True == _3512454_37) {
+Obj v_2312460_25 = R[1];
+if (True == v_2312460_25) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512659_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512660_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512659_37);
-Obj _3512661_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512662_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512661_37);
-Obj _3512663_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512664_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512663_37);
-R[1] = _3512662_37;
-R[2] = _3512660_37;
+Obj v_2312665_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312666_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2312665_25);
+Obj v_2312667_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312668_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2312667_25);
+Obj v_2312669_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312670_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2312669_25);
+R[1] = v_2312668_25;
+R[2] = v_2312666_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512664_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2312670_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512658_37= co->res;
-Obj e1 = R[1];
+Obj v_2312664_25= co->res;
+Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512658_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2312664_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512657_37= co->res;
-Obj e1 = R[1];
-Obj e2 = _3512657_37;
-R[1] = e1;
+Obj v_2312663_25= co->res;
+Obj v_e1 = R[1];
+Obj v_e2 = v_2312663_25;
+R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3512656_37= co->res;
-Obj e1 = _3512656_37;
-R[1] = e1;
+Obj v_2312662_25= co->res;
+Obj v_e1 = v_2312662_25;
+R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3512666_37= co->res;
-Obj _3512660_37 = R[1];
-Obj _3512667_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512668_37 = makeCons(co->gc, _3512667_37, Nil);
-Obj _3512669_37 = makeCons(co->gc, _3512666_37, _3512668_37);
-Obj _3512670_37 = makeCons(co->gc, _3512660_37, _3512669_37);
-Obj _3512671_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512670_37);
-coraReturn(co, _3512671_37);
+Obj v_2312672_25= co->res;
+Obj v_2312666_25 = R[1];
+Obj v_2312673_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2312674_25 = makeCons(co->gc, v_2312673_25, Nil);
+Obj v_2312675_25 = makeCons(co->gc, v_2312672_25, v_2312674_25);
+Obj v_2312676_25 = makeCons(co->gc, v_2312666_25, v_2312675_25);
+Obj v_2312677_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312676_25);
+coraReturn(co, v_2312677_25);
 return;
 }
 case 5:
 {
-Obj _3512665_37= co->res;
-Obj _3512662_37 = R[1];
-Obj _3512660_37 = R[2];
-R[1] = _3512660_37;
+Obj v_2312671_25= co->res;
+Obj v_2312668_25 = R[1];
+Obj v_2312666_25 = R[2];
+R[1] = v_2312666_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512662_37, _3512665_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2312668_25, v_2312671_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3354,10 +3354,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512652_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v_2312658_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512652_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312658_25);
 return;
 }
 }
@@ -3367,37 +3367,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj _3512642_37 = PRIM_CDR(pat);
-R[1] = pat;
+Obj v_pat = R[1];
+Obj v_2312648_25 = PRIM_CDR(v_pat);
+R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312648_25);
 return;
 }
 case 1:
 {
-Obj _3512647_37= co->res;
-Obj _3512645_37 = R[1];
-Obj _3512648_37 = makeCons(co->gc, _3512647_37, Nil);
-Obj _3512649_37 = makeCons(co->gc, _3512645_37, _3512648_37);
-Obj _3512650_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512649_37);
-coraReturn(co, _3512650_37);
+Obj v_2312653_25= co->res;
+Obj v_2312651_25 = R[1];
+Obj v_2312654_25 = makeCons(co->gc, v_2312653_25, Nil);
+Obj v_2312655_25 = makeCons(co->gc, v_2312651_25, v_2312654_25);
+Obj v_2312656_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312655_25);
+coraReturn(co, v_2312656_25);
 return;
 }
 case 2:
 {
-Obj _3512643_37= co->res;
-Obj pat = R[1];
-if (True == _3512643_37) {
-Obj _3512644_37 = PRIM_CAR(pat);
-coraReturn(co, _3512644_37);
+Obj v_2312649_25= co->res;
+Obj v_pat = R[1];
+if (True == v_2312649_25) {
+Obj v_2312650_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2312650_25);
 return;
 } else {
-Obj _3512645_37 = PRIM_CAR(pat);
-Obj _3512646_37 = PRIM_CDR(pat);
-R[1] = _3512645_37;
+Obj v_2312651_25 = PRIM_CAR(v_pat);
+Obj v_2312652_25 = PRIM_CDR(v_pat);
+R[1] = v_2312651_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312652_25);
 return;
 }
 }
@@ -3408,14 +3408,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512639_37 = PRIM_EQ(x, True);
-if (True == _3512639_37) {
+Obj v_x = R[1];
+Obj v_2312645_25 = PRIM_EQ(v_x, True);
+if (True == v_2312645_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512640_37 = PRIM_EQ(x, False);
-if (True == _3512640_37) {
+Obj v_2312646_25 = PRIM_EQ(v_x, False);
+if (True == v_2312646_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3431,10 +3431,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512637_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v_2312643_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512637_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312643_25);
 return;
 }
 }
@@ -3444,42 +3444,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3512625_37 = PRIM_EQ(Nil, l);
-if (True == _3512625_37) {
+Obj v_l = R[1];
+Obj v_2312631_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2312631_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512626_37 = PRIM_CAR(l);
-Obj _3512627_37 = PRIM_EQ(_3512626_37, False);
-if (True == _3512627_37) {
+Obj v_2312632_25 = PRIM_CAR(v_l);
+Obj v_2312633_25 = PRIM_EQ(v_2312632_25, False);
+if (True == v_2312633_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512628_37 = PRIM_CDR(l);
-R[1] = l;
+Obj v_2312634_25 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512628_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312634_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512629_37= co->res;
-Obj l = R[1];
-Obj more = _3512629_37;
-Obj _3512630_37 = PRIM_EQ(more, False);
-if (True == _3512630_37) {
+Obj v_2312635_25= co->res;
+Obj v_l = R[1];
+Obj v_more = v_2312635_25;
+Obj v_2312636_25 = PRIM_EQ(v_more, False);
+if (True == v_2312636_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512631_37 = PRIM_CAR(l);
-Obj _3512632_37 = makeCons(co->gc, False, Nil);
-Obj _3512633_37 = makeCons(co->gc, more, _3512632_37);
-Obj _3512634_37 = makeCons(co->gc, _3512631_37, _3512633_37);
-Obj _3512635_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512634_37);
-coraReturn(co, _3512635_37);
+Obj v_2312637_25 = PRIM_CAR(v_l);
+Obj v_2312638_25 = makeCons(co->gc, False, Nil);
+Obj v_2312639_25 = makeCons(co->gc, v_more, v_2312638_25);
+Obj v_2312640_25 = makeCons(co->gc, v_2312637_25, v_2312639_25);
+Obj v_2312641_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312640_25);
+coraReturn(co, v_2312641_25);
 return;
 }
 }
@@ -3490,10 +3490,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512623_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v_2312629_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312629_25);
 return;
 }
 }
@@ -3503,42 +3503,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3512611_37 = PRIM_EQ(l, Nil);
-if (True == _3512611_37) {
+Obj v_l = R[1];
+Obj v_2312617_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2312617_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512612_37 = PRIM_CAR(l);
-Obj _3512613_37 = PRIM_EQ(_3512612_37, True);
-if (True == _3512613_37) {
+Obj v_2312618_25 = PRIM_CAR(v_l);
+Obj v_2312619_25 = PRIM_EQ(v_2312618_25, True);
+if (True == v_2312619_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512614_37 = PRIM_CDR(l);
-R[1] = l;
+Obj v_2312620_25 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512614_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312620_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512615_37= co->res;
-Obj l = R[1];
-Obj more = _3512615_37;
-Obj _3512616_37 = PRIM_EQ(more, True);
-if (True == _3512616_37) {
+Obj v_2312621_25= co->res;
+Obj v_l = R[1];
+Obj v_more = v_2312621_25;
+Obj v_2312622_25 = PRIM_EQ(v_more, True);
+if (True == v_2312622_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512617_37 = PRIM_CAR(l);
-Obj _3512618_37 = makeCons(co->gc, more, Nil);
-Obj _3512619_37 = makeCons(co->gc, True, _3512618_37);
-Obj _3512620_37 = makeCons(co->gc, _3512617_37, _3512619_37);
-Obj _3512621_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512620_37);
-coraReturn(co, _3512621_37);
+Obj v_2312623_25 = PRIM_CAR(v_l);
+Obj v_2312624_25 = makeCons(co->gc, v_more, Nil);
+Obj v_2312625_25 = makeCons(co->gc, True, v_2312624_25);
+Obj v_2312626_25 = makeCons(co->gc, v_2312623_25, v_2312625_25);
+Obj v_2312627_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312626_25);
+coraReturn(co, v_2312627_25);
 return;
 }
 }
@@ -3549,55 +3549,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512597_37 = PRIM_CDR(exp);
-Obj _3512598_37 = PRIM_EQ(Nil, _3512597_37);
-if (True == _3512598_37) {
-Obj _3512599_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512600_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512599_37);
-coraReturn(co, _3512600_37);
+Obj v_exp = R[1];
+Obj v_2312603_25 = PRIM_CDR(v_exp);
+Obj v_2312604_25 = PRIM_EQ(Nil, v_2312603_25);
+if (True == v_2312604_25) {
+Obj v_2312605_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2312606_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312605_25);
+coraReturn(co, v_2312606_25);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3512604_37= co->res;
-Obj _3512603_37 = R[1];
-Obj _3512602_37 = R[2];
-Obj _3512605_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512604_37);
-Obj _3512606_37 = makeCons(co->gc, _3512605_37, Nil);
-Obj _3512607_37 = makeCons(co->gc, _3512603_37, _3512606_37);
-Obj _3512608_37 = makeCons(co->gc, _3512602_37, _3512607_37);
-Obj _3512609_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512608_37);
-coraReturn(co, _3512609_37);
+Obj v_2312610_25= co->res;
+Obj v_2312609_25 = R[1];
+Obj v_2312608_25 = R[2];
+Obj v_2312611_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2312610_25);
+Obj v_2312612_25 = makeCons(co->gc, v_2312611_25, Nil);
+Obj v_2312613_25 = makeCons(co->gc, v_2312609_25, v_2312612_25);
+Obj v_2312614_25 = makeCons(co->gc, v_2312608_25, v_2312613_25);
+Obj v_2312615_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312614_25);
+coraReturn(co, v_2312615_25);
 return;
 }
 case 2:
 {
-Obj _3512603_37= co->res;
-Obj exp = R[1];
-Obj _3512602_37 = R[2];
-R[1] = _3512603_37;
-R[2] = _3512602_37;
+Obj v_2312609_25= co->res;
+Obj v_exp = R[1];
+Obj v_2312608_25 = R[2];
+R[1] = v_2312609_25;
+R[2] = v_2312608_25;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512601_37= co->res;
-Obj exp = R[1];
-Obj curr = _3512601_37;
-Obj _3512602_37 = PRIM_CAR(curr);
-R[1] = exp;
-R[2] = _3512602_37;
+Obj v_2312607_25= co->res;
+Obj v_exp = R[1];
+Obj v_curr = v_2312607_25;
+Obj v_2312608_25 = PRIM_CAR(v_curr);
+R[1] = v_exp;
+R[2] = v_2312608_25;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
 return;
 }
 }
@@ -3607,10 +3607,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512595_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v_2312601_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312601_25);
 return;
 }
 }
@@ -3620,61 +3620,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512583_37 = PRIM_CDR(exp);
-R[1] = exp;
+Obj v_exp = R[1];
+Obj v_2312589_25 = PRIM_CDR(v_exp);
+R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512583_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312589_25);
 return;
 }
 case 1:
 {
-Obj _3512589_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-Obj _3512590_37 = makeCons(co->gc, _3512589_37, Nil);
-Obj _3512591_37 = makeCons(co->gc, _3512587_37, _3512590_37);
-Obj _3512592_37 = makeCons(co->gc, _3512586_37, _3512591_37);
-Obj _3512593_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512592_37);
-coraReturn(co, _3512593_37);
+Obj v_2312595_25= co->res;
+Obj v_2312593_25 = R[1];
+Obj v_2312592_25 = R[2];
+Obj v_2312596_25 = makeCons(co->gc, v_2312595_25, Nil);
+Obj v_2312597_25 = makeCons(co->gc, v_2312593_25, v_2312596_25);
+Obj v_2312598_25 = makeCons(co->gc, v_2312592_25, v_2312597_25);
+Obj v_2312599_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312598_25);
+coraReturn(co, v_2312599_25);
 return;
 }
 case 2:
 {
-Obj _3512588_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj v_2312594_25= co->res;
+Obj v_2312593_25 = R[1];
+Obj v_2312592_25 = R[2];
+R[1] = v_2312593_25;
+R[2] = v_2312592_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312594_25);
 return;
 }
 case 3:
 {
-Obj _3512587_37= co->res;
-Obj exp = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj v_2312593_25= co->res;
+Obj v_exp = R[1];
+Obj v_2312592_25 = R[2];
+R[1] = v_2312593_25;
+R[2] = v_2312592_25;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3512584_37= co->res;
-Obj exp = R[1];
-if (True == _3512584_37) {
-Obj _3512585_37 = PRIM_CAR(exp);
-coraReturn(co, _3512585_37);
+Obj v_2312590_25= co->res;
+Obj v_exp = R[1];
+if (True == v_2312590_25) {
+Obj v_2312591_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2312591_25);
 return;
 } else {
-Obj _3512586_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3512586_37;
+Obj v_2312592_25 = PRIM_CAR(v_exp);
+R[1] = v_exp;
+R[2] = v_2312592_25;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 }
@@ -3685,10 +3685,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512580_37 = PRIM_ISCONS(x);
-Obj _3512581_37 = primNot(_3512580_37);
-coraReturn(co, _3512581_37);
+Obj v_x = R[1];
+Obj v_2312586_25 = PRIM_ISCONS(v_x);
+Obj v_2312587_25 = primNot(v_2312586_25);
+coraReturn(co, v_2312587_25);
 return;
 }
 }
@@ -3698,19 +3698,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
-Obj _3512575_37 = PRIM_ISCONS(l);
-if (True == _3512575_37) {
-Obj _3512576_37 = PRIM_CAR(l);
-Obj _3512577_37 = PRIM_EQ(_3512576_37, x);
-if (True == _3512577_37) {
+Obj v_x = R[1];
+Obj v_l = R[2];
+Obj v_2312581_25 = PRIM_ISCONS(v_l);
+if (True == v_2312581_25) {
+Obj v_2312582_25 = PRIM_CAR(v_l);
+Obj v_2312583_25 = PRIM_EQ(v_2312582_25, v_x);
+if (True == v_2312583_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512578_37 = PRIM_CDR(l);
+Obj v_2312584_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2312584_25);
 return;
 }
 } else {
@@ -3725,45 +3725,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512567_37= co->res;
-Obj _3512566_37 = R[1];
-Obj _3512565_37 = R[2];
-Obj _3512568_37 = makeCons(co->gc, _3512567_37, Nil);
-Obj _3512569_37 = makeCons(co->gc, _3512566_37, _3512568_37);
-Obj _3512570_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512569_37);
-Obj _3512571_37 = makeCons(co->gc, _3512570_37, Nil);
-Obj _3512572_37 = makeCons(co->gc, _3512565_37, _3512571_37);
-Obj _3512573_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512572_37);
-coraReturn(co, _3512573_37);
+Obj v_2312573_25= co->res;
+Obj v_2312572_25 = R[1];
+Obj v_2312571_25 = R[2];
+Obj v_2312574_25 = makeCons(co->gc, v_2312573_25, Nil);
+Obj v_2312575_25 = makeCons(co->gc, v_2312572_25, v_2312574_25);
+Obj v_2312576_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312575_25);
+Obj v_2312577_25 = makeCons(co->gc, v_2312576_25, Nil);
+Obj v_2312578_25 = makeCons(co->gc, v_2312571_25, v_2312577_25);
+Obj v_2312579_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312578_25);
+coraReturn(co, v_2312579_25);
 return;
 }
 case 2:
 {
-Obj _3512566_37= co->res;
-Obj exp = R[1];
-Obj _3512565_37 = R[2];
-R[1] = _3512566_37;
-R[2] = _3512565_37;
+Obj v_2312572_25= co->res;
+Obj v_exp = R[1];
+Obj v_2312571_25 = R[2];
+R[1] = v_2312572_25;
+R[2] = v_2312571_25;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512565_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-R[2] = _3512565_37;
+Obj v_2312571_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
+R[2] = v_2312571_25;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 }
@@ -3773,10 +3773,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512563_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v_2312569_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512563_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312569_25);
 return;
 }
 }
@@ -3786,46 +3786,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512555_37= co->res;
-Obj _3512554_37 = R[1];
-Obj _3512553_37 = R[2];
-Obj _3512556_37 = makeCons(co->gc, _3512554_37, _3512555_37);
-Obj _3512557_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512556_37);
-Obj _3512558_37 = makeCons(co->gc, _3512557_37, Nil);
-Obj _3512559_37 = makeCons(co->gc, _3512553_37, _3512558_37);
-Obj _3512560_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512559_37);
-coraReturn(co, _3512560_37);
+Obj v_2312561_25= co->res;
+Obj v_2312560_25 = R[1];
+Obj v_2312559_25 = R[2];
+Obj v_2312562_25 = makeCons(co->gc, v_2312560_25, v_2312561_25);
+Obj v_2312563_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312562_25);
+Obj v_2312564_25 = makeCons(co->gc, v_2312563_25, Nil);
+Obj v_2312565_25 = makeCons(co->gc, v_2312559_25, v_2312564_25);
+Obj v_2312566_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2312565_25);
+coraReturn(co, v_2312566_25);
 return;
 }
 case 2:
 {
-Obj _3512554_37= co->res;
-Obj exp = R[1];
-Obj _3512553_37 = R[2];
-R[1] = _3512554_37;
-R[2] = _3512553_37;
+Obj v_2312560_25= co->res;
+Obj v_exp = R[1];
+Obj v_2312559_25 = R[2];
+R[1] = v_2312560_25;
+R[2] = v_2312559_25;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512551_37= co->res;
-Obj exp = R[1];
-Obj _3512552_37 = makeCons(co->gc, _3512551_37, Nil);
-Obj _3512553_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512552_37);
-R[1] = exp;
-R[2] = _3512553_37;
+Obj v_2312557_25= co->res;
+Obj v_exp = R[1];
+Obj v_2312558_25 = makeCons(co->gc, v_2312557_25, Nil);
+Obj v_2312559_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312558_25);
+R[1] = v_exp;
+R[2] = v_2312559_25;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 }
@@ -3835,76 +3835,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512533_37 = PRIM_ISCONS(exp);
-if (True == _3512533_37) {
-Obj _3512534_37 = PRIM_CAR(exp);
-Obj _3512535_37 = PRIM_EQ(_3512534_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512535_37) {
-Obj _3512536_37 = PRIM_CDR(exp);
-coraReturn(co, _3512536_37);
+Obj v_exp = R[1];
+Obj v_2312539_25 = PRIM_ISCONS(v_exp);
+if (True == v_2312539_25) {
+Obj v_2312540_25 = PRIM_CAR(v_exp);
+Obj v_2312541_25 = PRIM_EQ(v_2312540_25, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v_2312541_25) {
+Obj v_2312542_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2312542_25);
 return;
 } else {
-Obj _3512537_37 = PRIM_CAR(exp);
-Obj _3512538_37 = PRIM_EQ(_3512537_37, getBinding(co, packageID, 140).name);
-if (True == _3512538_37) {
-R[1] = exp;
+Obj v_2312543_25 = PRIM_CAR(v_exp);
+Obj v_2312544_25 = PRIM_EQ(v_2312543_25, getBinding(co, packageID, 140).name);
+if (True == v_2312544_25) {
+R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj _3512545_37 = PRIM_CAR(exp);
-Obj _3512546_37 = PRIM_EQ(_3512545_37, getBinding(co, packageID, 139).name);
-if (True == _3512546_37) {
-coraReturn(co, exp);
+Obj v_2312551_25 = PRIM_CAR(v_exp);
+Obj v_2312552_25 = PRIM_EQ(v_2312551_25, getBinding(co, packageID, 139).name);
+if (True == v_2312552_25) {
+coraReturn(co, v_exp);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
 return;
 }
 }
 }
 } else {
-coraReturn(co, exp);
+coraReturn(co, v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3512541_37= co->res;
-Obj _3512539_37 = R[1];
-Obj _3512542_37 = makeCons(co->gc, _3512541_37, Nil);
-Obj _3512543_37 = makeCons(co->gc, _3512539_37, _3512542_37);
-Obj _3512544_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512543_37);
-coraReturn(co, _3512544_37);
+Obj v_2312547_25= co->res;
+Obj v_2312545_25 = R[1];
+Obj v_2312548_25 = makeCons(co->gc, v_2312547_25, Nil);
+Obj v_2312549_25 = makeCons(co->gc, v_2312545_25, v_2312548_25);
+Obj v_2312550_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312549_25);
+coraReturn(co, v_2312550_25);
 return;
 }
 case 2:
 {
-Obj _3512540_37= co->res;
-Obj _3512539_37 = R[1];
-R[1] = _3512539_37;
+Obj v_2312546_25= co->res;
+Obj v_2312545_25 = R[1];
+R[1] = v_2312545_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512540_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2312546_25);
 return;
 }
 case 3:
 {
-Obj _3512539_37= co->res;
-Obj exp = R[1];
-R[1] = _3512539_37;
+Obj v_2312545_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_2312545_25;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3512548_37= co->res;
-Obj exp = R[1];
+Obj v_2312554_25= co->res;
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512548_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2312554_25);
 return;
 }
 }
@@ -3914,15 +3914,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp1 = R[1];
-Obj _3512547_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512547_37) {
+Obj v_exp1 = R[1];
+Obj v_2312553_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2312553_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
 }
 }
@@ -3933,9 +3933,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v_exp, globalRef(co, getBinding(co, packageID, 146)));
 return;
 }
 }
@@ -3945,16 +3945,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj macros = R[2];
-Obj _3512523_37 = PRIM_EQ(Nil, macros);
-if (True == _3512523_37) {
-coraReturn(co, exp);
+Obj v_exp = R[1];
+Obj v_macros = R[2];
+Obj v_2312529_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2312529_25) {
+coraReturn(co, v_exp);
 return;
 } else {
-Obj _3512530_37 = PRIM_CAR(macros);
+Obj v_2312536_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512530_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2312536_25);
 return;
 }
 }
@@ -3965,25 +3965,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj item = R[1];
-Obj _3512451_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512526_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512526_37) {
-Obj _3512527_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512528_37 = PRIM_CAR(item);
-Obj _3512529_37 = PRIM_EQ(_3512527_37, _3512528_37);
-if (True == _3512529_37) {
+Obj v_item = R[1];
+Obj v_2312457_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2312532_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2312532_25) {
+Obj v_2312533_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2312534_25 = PRIM_CAR(v_item);
+Obj v_2312535_25 = PRIM_EQ(v_2312533_25, v_2312534_25);
+if (True == v_2312535_25) {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, True);
+coraCall1(co, v_2312457_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, v_2312457_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, v_2312457_25, False);
 return;
 }
 }
@@ -3994,16 +3994,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512452_37 = R[1];
-if (True == _3512452_37) {
-Obj _3512524_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312458_25 = R[1];
+if (True == v_2312458_25) {
+Obj v_2312530_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512524_37, closureRef(R[0], 1));
+coraCall1(co, v_2312530_25, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512525_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2312531_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512525_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2312531_25);
 return;
 }
 }
@@ -4014,12 +4014,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj v = R[2];
-Obj _3512519_37 = makeCons(co->gc, n, v);
-Obj _3512520_37 = makeCons(co->gc, _3512519_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512521_37 = primSet(co, getBinding(co, packageID, 146).name, _3512520_37);
-coraReturn(co, _3512521_37);
+Obj v_n = R[1];
+Obj v_v = R[2];
+Obj v_2312525_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2312526_25 = makeCons(co->gc, v_2312525_25, globalRef(co, getBinding(co, packageID, 146)));
+Obj v_2312527_25 = primSet(co, getBinding(co, packageID, 146).name, v_2312526_25);
+coraReturn(co, v_2312527_25);
 return;
 }
 }
@@ -4029,10 +4029,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f = R[1];
-Obj l = R[2];
+Obj v_f = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, f, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v_f, v_l);
 return;
 }
 }
@@ -4042,34 +4042,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj f = R[2];
-Obj l = R[3];
-Obj _3512509_37 = PRIM_ISCONS(l);
-if (True == _3512509_37) {
-Obj _3512510_37 = PRIM_CAR(l);
-R[1] = res;
-R[2] = l;
-R[3] = f;
+Obj v_res = R[1];
+Obj v_f = R[2];
+Obj v_l = R[3];
+Obj v_2312515_25 = PRIM_ISCONS(v_l);
+if (True == v_2312515_25) {
+Obj v_2312516_25 = PRIM_CAR(v_l);
+R[1] = v_res;
+R[2] = v_l;
+R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512510_37);
+coraCall1(co, v_f, v_2312516_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3512511_37= co->res;
-Obj res = R[1];
-Obj l = R[2];
-Obj f = R[3];
-Obj _3512512_37 = makeCons(co->gc, _3512511_37, res);
-Obj _3512513_37 = PRIM_CDR(l);
+Obj v_2312517_25= co->res;
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v_f = R[3];
+Obj v_2312518_25 = makeCons(co->gc, v_2312517_25, v_res);
+Obj v_2312519_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512512_37, f, _3512513_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2312518_25, v_f, v_2312519_25);
 return;
 }
 }
@@ -4079,18 +4079,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj l = R[2];
-Obj _3512502_37 = PRIM_ISCONS(l);
-if (True == _3512502_37) {
-Obj _3512503_37 = PRIM_CAR(l);
-Obj _3512504_37 = makeCons(co->gc, _3512503_37, res);
-Obj _3512505_37 = PRIM_CDR(l);
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v_2312508_25 = PRIM_ISCONS(v_l);
+if (True == v_2312508_25) {
+Obj v_2312509_25 = PRIM_CAR(v_l);
+Obj v_2312510_25 = makeCons(co->gc, v_2312509_25, v_res);
+Obj v_2312511_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512504_37, _3512505_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2312510_25, v_2312511_25);
 return;
 } else {
-coraReturn(co, res);
+coraReturn(co, v_res);
 return;
 }
 }
@@ -4101,9 +4101,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512500_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512500_37);
+Obj v_x = R[1];
+Obj v_2312506_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2312506_25);
 return;
 }
 }
@@ -4113,14 +4113,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512492_37 = PRIM_ISCONS(exp);
-if (True == _3512492_37) {
-Obj _3512493_37 = PRIM_CAR(exp);
-Obj _3512494_37 = PRIM_CDR(exp);
-R[1] = _3512493_37;
+Obj v_exp = R[1];
+Obj v_2312498_25 = PRIM_ISCONS(v_exp);
+if (True == v_2312498_25) {
+Obj v_2312499_25 = PRIM_CAR(v_exp);
+Obj v_2312500_25 = PRIM_CDR(v_exp);
+R[1] = v_2312499_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512494_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312500_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4129,12 @@ return;
 }
 case 1:
 {
-Obj _3512495_37= co->res;
-Obj _3512493_37 = R[1];
-Obj _3512496_37 = makeCons(co->gc, _3512495_37, Nil);
-Obj _3512497_37 = makeCons(co->gc, _3512493_37, _3512496_37);
-Obj _3512498_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512497_37);
-coraReturn(co, _3512498_37);
+Obj v_2312501_25= co->res;
+Obj v_2312499_25 = R[1];
+Obj v_2312502_25 = makeCons(co->gc, v_2312501_25, Nil);
+Obj v_2312503_25 = makeCons(co->gc, v_2312499_25, v_2312502_25);
+Obj v_2312504_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312503_25);
+coraReturn(co, v_2312504_25);
 return;
 }
 }
@@ -4144,11 +4144,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512488_37 = PRIM_CDR(x);
-Obj _3512489_37 = PRIM_CDR(_3512488_37);
-Obj _3512490_37 = PRIM_CDR(_3512489_37);
-coraReturn(co, _3512490_37);
+Obj v_x = R[1];
+Obj v_2312494_25 = PRIM_CDR(v_x);
+Obj v_2312495_25 = PRIM_CDR(v_2312494_25);
+Obj v_2312496_25 = PRIM_CDR(v_2312495_25);
+coraReturn(co, v_2312496_25);
 return;
 }
 }
@@ -4158,12 +4158,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512483_37 = PRIM_CDR(x);
-Obj _3512484_37 = PRIM_CDR(_3512483_37);
-Obj _3512485_37 = PRIM_CDR(_3512484_37);
-Obj _3512486_37 = PRIM_CAR(_3512485_37);
-coraReturn(co, _3512486_37);
+Obj v_x = R[1];
+Obj v_2312489_25 = PRIM_CDR(v_x);
+Obj v_2312490_25 = PRIM_CDR(v_2312489_25);
+Obj v_2312491_25 = PRIM_CDR(v_2312490_25);
+Obj v_2312492_25 = PRIM_CAR(v_2312491_25);
+coraReturn(co, v_2312492_25);
 return;
 }
 }
@@ -4173,11 +4173,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512479_37 = PRIM_CDR(x);
-Obj _3512480_37 = PRIM_CDR(_3512479_37);
-Obj _3512481_37 = PRIM_CAR(_3512480_37);
-coraReturn(co, _3512481_37);
+Obj v_x = R[1];
+Obj v_2312485_25 = PRIM_CDR(v_x);
+Obj v_2312486_25 = PRIM_CDR(v_2312485_25);
+Obj v_2312487_25 = PRIM_CAR(v_2312486_25);
+coraReturn(co, v_2312487_25);
 return;
 }
 }
@@ -4187,10 +4187,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512476_37 = PRIM_CDR(x);
-Obj _3512477_37 = PRIM_CDR(_3512476_37);
-coraReturn(co, _3512477_37);
+Obj v_x = R[1];
+Obj v_2312482_25 = PRIM_CDR(v_x);
+Obj v_2312483_25 = PRIM_CDR(v_2312482_25);
+coraReturn(co, v_2312483_25);
 return;
 }
 }
@@ -4200,10 +4200,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512473_37 = PRIM_CAR(x);
-Obj _3512474_37 = PRIM_CDR(_3512473_37);
-coraReturn(co, _3512474_37);
+Obj v_x = R[1];
+Obj v_2312479_25 = PRIM_CAR(v_x);
+Obj v_2312480_25 = PRIM_CDR(v_2312479_25);
+coraReturn(co, v_2312480_25);
 return;
 }
 }
@@ -4213,10 +4213,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512470_37 = PRIM_CAR(x);
-Obj _3512471_37 = PRIM_CAR(_3512470_37);
-coraReturn(co, _3512471_37);
+Obj v_x = R[1];
+Obj v_2312476_25 = PRIM_CAR(v_x);
+Obj v_2312477_25 = PRIM_CAR(v_2312476_25);
+coraReturn(co, v_2312477_25);
 return;
 }
 }
@@ -4226,10 +4226,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512467_37 = PRIM_CDR(x);
-Obj _3512468_37 = PRIM_CAR(_3512467_37);
-coraReturn(co, _3512468_37);
+Obj v_x = R[1];
+Obj v_2312473_25 = PRIM_CDR(v_x);
+Obj v_2312474_25 = PRIM_CAR(v_2312473_25);
+coraReturn(co, v_2312474_25);
 return;
 }
 }
@@ -4239,9 +4239,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512465_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512465_37);
+Obj v_x = R[1];
+Obj v_2312471_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2312471_25);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index ac5b776..a842e6b 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -298,152 +298,152 @@ return;
 }
 case 1:
 {
-Obj _3518160_37= co->res;
-Obj _3518166_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj _3518172_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518194_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj _3518213_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
-Obj _3518223_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
-Obj _3518264_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj _3518303_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj _3518355_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj _3518356_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518370_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj _3518371_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518384_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj _3518394_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, _3518394_37);
+Obj v_2318166_25= co->res;
+Obj v_2318172_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj v_2318178_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v_2318200_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
+Obj v_2318220_25 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
+Obj v_2318230_25 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
+Obj v_2318271_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
+Obj v_2318310_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
+Obj v_2318362_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
+Obj v_2318363_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj v_2318377_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
+Obj v_2318378_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2318391_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
+Obj v_2318401_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
+coraReturn(co, v_2318401_25);
 return;
 }
 case 2:
 {
-Obj _3516778_37= co->res;
-Obj _3516779_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516794_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516800_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516810_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516811_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516818_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516819_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516820_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516819_37);
-Obj _3516821_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516820_37);
-Obj _3516822_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516823_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516822_37);
-Obj _3516824_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516823_37);
-Obj _3516825_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516826_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516825_37);
-Obj _3516827_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516826_37);
-Obj _3516828_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516829_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516828_37);
-Obj _3516830_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516829_37);
-Obj _3516831_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516832_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516831_37);
-Obj _3516833_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516832_37);
-Obj _3516834_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516835_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516834_37);
-Obj _3516836_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516835_37);
-Obj _3516837_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516838_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516837_37);
-Obj _3516839_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516838_37);
-Obj _3516840_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516841_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516840_37);
-Obj _3516842_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516841_37);
-Obj _3516843_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516844_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516843_37);
-Obj _3516845_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516844_37);
-Obj _3516846_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516847_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516846_37);
-Obj _3516848_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516847_37);
-Obj _3516849_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516850_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516849_37);
-Obj _3516851_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516850_37);
-Obj _3516852_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516853_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516852_37);
-Obj _3516854_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516853_37);
-Obj _3516855_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516856_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516855_37);
-Obj _3516857_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516856_37);
-Obj _3516858_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516859_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516858_37);
-Obj _3516860_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516859_37);
-Obj _3516861_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516862_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516861_37);
-Obj _3516863_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516862_37);
-Obj _3516864_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516865_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516864_37);
-Obj _3516866_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516865_37);
-Obj _3516867_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516868_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516867_37);
-Obj _3516869_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516868_37);
-Obj _3516870_37 = makeCons(co->gc, _3516869_37, Nil);
-Obj _3516871_37 = makeCons(co->gc, _3516866_37, _3516870_37);
-Obj _3516872_37 = makeCons(co->gc, _3516863_37, _3516871_37);
-Obj _3516873_37 = makeCons(co->gc, _3516860_37, _3516872_37);
-Obj _3516874_37 = makeCons(co->gc, _3516857_37, _3516873_37);
-Obj _3516875_37 = makeCons(co->gc, _3516854_37, _3516874_37);
-Obj _3516876_37 = makeCons(co->gc, _3516851_37, _3516875_37);
-Obj _3516877_37 = makeCons(co->gc, _3516848_37, _3516876_37);
-Obj _3516878_37 = makeCons(co->gc, _3516845_37, _3516877_37);
-Obj _3516879_37 = makeCons(co->gc, _3516842_37, _3516878_37);
-Obj _3516880_37 = makeCons(co->gc, _3516839_37, _3516879_37);
-Obj _3516881_37 = makeCons(co->gc, _3516836_37, _3516880_37);
-Obj _3516882_37 = makeCons(co->gc, _3516833_37, _3516881_37);
-Obj _3516883_37 = makeCons(co->gc, _3516830_37, _3516882_37);
-Obj _3516884_37 = makeCons(co->gc, _3516827_37, _3516883_37);
-Obj _3516885_37 = makeCons(co->gc, _3516824_37, _3516884_37);
-Obj _3516886_37 = makeCons(co->gc, _3516821_37, _3516885_37);
-Obj _3516887_37 = primSet(co, getBinding(co, packageID, 122).name, _3516886_37);
-Obj _3516891_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516894_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516897_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516902_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517096_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517107_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517118_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517179_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517354_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517427_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj _3517430_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3517567_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3517590_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj _3517667_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj _3517698_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj _3517704_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj _3517709_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj _3517718_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj _3517769_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj _3517777_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj _3517784_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj _3517789_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj _3517795_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj _3517796_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj _3517803_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj _3517810_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj _3518097_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj _3518111_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj _3518133_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj _3518135_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj _3518139_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518140_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518141_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj _3518142_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518143_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518150_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj _3518157_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj v_2316784_25= co->res;
+Obj v_2316785_25 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj v_2316800_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2316806_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2316816_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2316817_25 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2316824_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2316825_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2316826_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316825_25);
+Obj v_2316827_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2316826_25);
+Obj v_2316828_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2316829_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316828_25);
+Obj v_2316830_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2316829_25);
+Obj v_2316831_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2316832_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316831_25);
+Obj v_2316833_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2316832_25);
+Obj v_2316834_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2316835_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316834_25);
+Obj v_2316836_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2316835_25);
+Obj v_2316837_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2316838_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316837_25);
+Obj v_2316839_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2316838_25);
+Obj v_2316840_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2316841_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316840_25);
+Obj v_2316842_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2316841_25);
+Obj v_2316843_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2316844_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316843_25);
+Obj v_2316845_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2316844_25);
+Obj v_2316846_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2316847_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316846_25);
+Obj v_2316848_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2316847_25);
+Obj v_2316849_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2316850_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316849_25);
+Obj v_2316851_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2316850_25);
+Obj v_2316852_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2316853_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316852_25);
+Obj v_2316854_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2316853_25);
+Obj v_2316855_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2316856_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316855_25);
+Obj v_2316857_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2316856_25);
+Obj v_2316858_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2316859_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316858_25);
+Obj v_2316860_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2316859_25);
+Obj v_2316861_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2316862_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2316861_25);
+Obj v_2316863_25 = makeCons(co->gc, getBinding(co, packageID, 109).name, v_2316862_25);
+Obj v_2316864_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2316865_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316864_25);
+Obj v_2316866_25 = makeCons(co->gc, getBinding(co, packageID, 108).name, v_2316865_25);
+Obj v_2316867_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2316868_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316867_25);
+Obj v_2316869_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2316868_25);
+Obj v_2316870_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2316871_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316870_25);
+Obj v_2316872_25 = makeCons(co->gc, getBinding(co, packageID, 106).name, v_2316871_25);
+Obj v_2316873_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2316874_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316873_25);
+Obj v_2316875_25 = makeCons(co->gc, getBinding(co, packageID, 105).name, v_2316874_25);
+Obj v_2316876_25 = makeCons(co->gc, v_2316875_25, Nil);
+Obj v_2316877_25 = makeCons(co->gc, v_2316872_25, v_2316876_25);
+Obj v_2316878_25 = makeCons(co->gc, v_2316869_25, v_2316877_25);
+Obj v_2316879_25 = makeCons(co->gc, v_2316866_25, v_2316878_25);
+Obj v_2316880_25 = makeCons(co->gc, v_2316863_25, v_2316879_25);
+Obj v_2316881_25 = makeCons(co->gc, v_2316860_25, v_2316880_25);
+Obj v_2316882_25 = makeCons(co->gc, v_2316857_25, v_2316881_25);
+Obj v_2316883_25 = makeCons(co->gc, v_2316854_25, v_2316882_25);
+Obj v_2316884_25 = makeCons(co->gc, v_2316851_25, v_2316883_25);
+Obj v_2316885_25 = makeCons(co->gc, v_2316848_25, v_2316884_25);
+Obj v_2316886_25 = makeCons(co->gc, v_2316845_25, v_2316885_25);
+Obj v_2316887_25 = makeCons(co->gc, v_2316842_25, v_2316886_25);
+Obj v_2316888_25 = makeCons(co->gc, v_2316839_25, v_2316887_25);
+Obj v_2316889_25 = makeCons(co->gc, v_2316836_25, v_2316888_25);
+Obj v_2316890_25 = makeCons(co->gc, v_2316833_25, v_2316889_25);
+Obj v_2316891_25 = makeCons(co->gc, v_2316830_25, v_2316890_25);
+Obj v_2316892_25 = makeCons(co->gc, v_2316827_25, v_2316891_25);
+Obj v_2316893_25 = primSet(co, getBinding(co, packageID, 122).name, v_2316892_25);
+Obj v_2316897_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2316900_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2316903_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2316908_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2317102_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj v_2317113_25 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj v_2317124_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj v_2317185_25 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj v_2317360_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj v_2317433_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
+Obj v_2317436_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v_2317573_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2317596_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
+Obj v_2317673_25 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
+Obj v_2317704_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
+Obj v_2317710_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
+Obj v_2317715_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
+Obj v_2317724_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj v_2317775_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
+Obj v_2317783_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
+Obj v_2317790_25 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2317795_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj v_2317801_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
+Obj v_2317802_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
+Obj v_2317809_25 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
+Obj v_2317816_25 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj v_2318103_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
+Obj v_2318117_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj v_2318139_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
+Obj v_2318141_25 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
+Obj v_2318145_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj v_2318146_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v_2318147_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
+Obj v_2318148_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj v_2318149_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v_2318156_25 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
+Obj v_2318163_25 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
 saveCont(co, clofun144, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516777_37= co->res;
+Obj v_2316783_25= co->res;
 saveCont(co, clofun144, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516776_37= co->res;
+Obj v_2316782_25= co->res;
 saveCont(co, clofun144, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -455,96 +455,96 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj from = R[1];
-Obj to = R[2];
-Obj _3518385_37 = primGenSym(co);
-Obj globals = _3518385_37;
-Obj _3518386_37 = primSet(co, globals, Nil);
-R[1] = from;
-R[2] = to;
-R[3] = globals;
+Obj v_from = R[1];
+Obj v_to = R[2];
+Obj v_2318392_25 = primGenSym(co);
+Obj v_globals = v_2318392_25;
+Obj v_2318393_25 = primSet(co, v_globals, Nil);
+R[1] = v_from;
+R[2] = v_to;
+R[3] = v_globals;
 saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518393_37= co->res;
-Obj stream = R[1];
+Obj v_2318400_25= co->res;
+Obj v_stream = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
 return;
 }
 case 2:
 {
-Obj _3518392_37= co->res;
-Obj bc = R[1];
-Obj stream = R[2];
-R[1] = stream;
+Obj v_2318399_25= co->res;
+Obj v_bc = R[1];
+Obj v_stream = R[2];
+R[1] = v_stream;
 saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518392_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v_stream, v_bc, v_2318399_25);
 return;
 }
 case 3:
 {
-Obj _3518391_37= co->res;
-Obj globals = R[1];
-Obj bc = R[2];
-Obj stream = _3518391_37;
-R[1] = bc;
-R[2] = stream;
+Obj v_2318398_25= co->res;
+Obj v_globals = R[1];
+Obj v_bc = R[2];
+Obj v_stream = v_2318398_25;
+R[1] = v_bc;
+R[2] = v_stream;
 saveCont(co, clofun143, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
 return;
 }
 case 4:
 {
-Obj _3518390_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = _3518390_37;
-R[1] = globals;
-R[2] = bc;
+Obj v_2318397_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = v_2318397_25;
+R[1] = v_globals;
+R[2] = v_bc;
 saveCont(co, clofun143, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj _3518389_37= co->res;
-Obj _3518387_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-R[1] = to;
-R[2] = globals;
+Obj v_2318396_25= co->res;
+Obj v_2318394_25 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+R[1] = v_to;
+R[2] = v_globals;
 saveCont(co, clofun143, 4, R);
-coraCall1(co, _3518387_37, _3518389_37);
+coraCall1(co, v_2318394_25, v_2318396_25);
 return;
 }
 case 6:
 {
-Obj _3518388_37= co->res;
-Obj _3518387_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518387_37;
-R[2] = to;
-R[3] = globals;
+Obj v_2318395_25= co->res;
+Obj v_2318394_25 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+R[1] = v_2318394_25;
+R[2] = v_to;
+R[3] = v_globals;
 saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518388_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2318395_25);
 return;
 }
 case 7:
 {
-Obj _3518387_37= co->res;
-Obj from = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518387_37;
-R[2] = to;
-R[3] = globals;
+Obj v_2318394_25= co->res;
+Obj v_from = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+R[1] = v_2318394_25;
+R[2] = v_to;
+R[3] = v_globals;
 saveCont(co, clofun143, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
@@ -554,97 +554,97 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj file_45path = R[1];
+Obj v_file_2dpath = R[1];
 saveCont(co, clofun142, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_2dpath);
 return;
 }
 case 1:
 {
-Obj _3518379_37= co->res;
-Obj sexp = R[1];
+Obj v_2318386_25= co->res;
+Obj v_sexp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
 return;
 }
 case 2:
 {
-Obj _3518378_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_2318385_25= co->res;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun142, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 3:
 {
-Obj _3518381_37= co->res;
-Obj sexp = R[1];
+Obj v_2318388_25= co->res;
+Obj v_sexp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
 return;
 }
 case 4:
 {
-Obj _3518380_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_2318387_25= co->res;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun142, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 5:
 {
-Obj _3518383_37= co->res;
-Obj sexp = R[1];
+Obj v_2318390_25= co->res;
+Obj v_sexp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
 return;
 }
 case 6:
 {
-Obj _3518382_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_2318389_25= co->res;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun142, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 7:
 {
-Obj _3518375_37= co->res;
-Obj _3516774_37 = R[1];
-Obj sexp = R[2];
-if (True == _3518375_37) {
-Obj _3518376_37 = PRIM_CAR(sexp);
-Obj _3518377_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518376_37);
-if (True == _3518377_37) {
-R[1] = sexp;
+Obj v_2318382_25= co->res;
+Obj v_2316780_25 = R[1];
+Obj v_sexp = R[2];
+if (True == v_2318382_25) {
+Obj v_2318383_25 = PRIM_CAR(v_sexp);
+Obj v_2318384_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318383_25);
+if (True == v_2318384_25) {
+R[1] = v_sexp;
 saveCont(co, clofun142, 2, R);
-coraCall1(co, _3516774_37, True);
+coraCall1(co, v_2316780_25, True);
 return;
 } else {
-R[1] = sexp;
+R[1] = v_sexp;
 saveCont(co, clofun142, 4, R);
-coraCall1(co, _3516774_37, False);
+coraCall1(co, v_2316780_25, False);
 return;
 }
 } else {
-R[1] = sexp;
+R[1] = v_sexp;
 saveCont(co, clofun142, 6, R);
-coraCall1(co, _3516774_37, False);
+coraCall1(co, v_2316780_25, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518372_37= co->res;
-Obj sexp = _3518372_37;
-Obj _3516774_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
-R[1] = _3516774_37;
-R[2] = sexp;
+Obj v_2318379_25= co->res;
+Obj v_sexp = v_2318379_25;
+Obj v_2316780_25 = makeNative(co->gc, 2, clofun141, 1, 1, v_sexp);
+R[1] = v_2316780_25;
+R[2] = v_sexp;
 saveCont(co, clofun142, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_sexp);
 return;
 }
 }
@@ -654,14 +654,14 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516775_37 = R[1];
-if (True == _3516775_37) {
-Obj _3518373_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518373_37);
+Obj v_2316781_25 = R[1];
+if (True == v_2316781_25) {
+Obj v_2318380_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2318380_25);
 return;
 } else {
-Obj _3518374_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518374_37);
+Obj v_2318381_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2318381_25);
 return;
 }
 }
@@ -672,27 +672,27 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = R[1];
-Obj _3516763_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516762_37);
-Obj _3518365_37 = PRIM_ISCONS(_3516762_37);
-if (True == _3518365_37) {
-Obj _3518366_37 = PRIM_CAR(_3516762_37);
-Obj _3518367_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518366_37);
-if (True == _3518367_37) {
-Obj _3518368_37 = PRIM_CDR(_3516762_37);
-Obj more = _3518368_37;
-Obj _3518369_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj v_2316768_25 = R[1];
+Obj v_2316769_25 = makeNative(co->gc, 1, clofun137, 0, 1, v_2316768_25);
+Obj v_2318372_25 = PRIM_ISCONS(v_2316768_25);
+if (True == v_2318372_25) {
+Obj v_2318373_25 = PRIM_CAR(v_2316768_25);
+Obj v_2318374_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318373_25);
+if (True == v_2318374_25) {
+Obj v_2318375_25 = PRIM_CDR(v_2316768_25);
+Obj v_more = v_2318375_25;
+Obj v_2318376_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518369_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318376_25, makeNative(co->gc, 2, clofun139, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, v_2316769_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, v_2316769_25);
 return;
 }
 }
@@ -703,9 +703,9 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
 return;
 }
 }
@@ -715,10 +715,10 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 }
@@ -728,26 +728,26 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516764_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj _3518360_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518360_37) {
-Obj _3518361_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518362_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518361_37);
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518363_37;
-Obj _3518364_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj v_2316770_25 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
+Obj v_2318367_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318367_25) {
+Obj v_2318368_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318369_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318368_25);
+if (True == v_2318369_25) {
+Obj v_2318370_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318370_25;
+Obj v_2318371_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518364_37, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318371_25, makeNative(co->gc, 2, clofun136, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, v_2316770_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, v_2316770_25);
 return;
 }
 }
@@ -758,9 +758,9 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
 return;
 }
 }
@@ -770,10 +770,10 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 }
@@ -783,9 +783,9 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518357_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2318364_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518357_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2318364_25, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
 return;
 }
 }
@@ -795,17 +795,17 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj _3518358_37= co->res;
-Obj _3518359_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518358_37);
-coraReturn(co, _3518359_37);
+Obj v_2318365_25= co->res;
+Obj v_2318366_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318365_25);
+coraReturn(co, v_2318366_25);
 return;
 }
 }
@@ -815,14 +815,14 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), v_type, v_code);
 return;
 } else {
-coraReturn(co, code);
+coraReturn(co, v_code);
 return;
 }
 }
@@ -833,50 +833,50 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516755_37 = R[1];
-Obj _3516756_37 = R[2];
-Obj _3516757_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516755_37, _3516756_37);
-Obj _3518343_37 = PRIM_ISCONS(_3516755_37);
-if (True == _3518343_37) {
-Obj _3518344_37 = PRIM_CAR(_3516755_37);
-Obj _3518345_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518344_37);
-if (True == _3518345_37) {
-Obj _3518346_37 = PRIM_CDR(_3516755_37);
-Obj _3518347_37 = PRIM_ISCONS(_3518346_37);
-if (True == _3518347_37) {
-Obj _3518348_37 = PRIM_CDR(_3516755_37);
-Obj _3518349_37 = PRIM_CAR(_3518348_37);
-Obj name = _3518349_37;
-Obj _3518350_37 = PRIM_CDR(_3516755_37);
-Obj _3518351_37 = PRIM_CDR(_3518350_37);
-Obj more = _3518351_37;
-R[1] = name;
+Obj v_2316761_25 = R[1];
+Obj v_2316762_25 = R[2];
+Obj v_2316763_25 = makeNative(co->gc, 2, clofun130, 0, 2, v_2316761_25, v_2316762_25);
+Obj v_2318350_25 = PRIM_ISCONS(v_2316761_25);
+if (True == v_2318350_25) {
+Obj v_2318351_25 = PRIM_CAR(v_2316761_25);
+Obj v_2318352_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318351_25);
+if (True == v_2318352_25) {
+Obj v_2318353_25 = PRIM_CDR(v_2316761_25);
+Obj v_2318354_25 = PRIM_ISCONS(v_2318353_25);
+if (True == v_2318354_25) {
+Obj v_2318355_25 = PRIM_CDR(v_2316761_25);
+Obj v_2318356_25 = PRIM_CAR(v_2318355_25);
+Obj v_name = v_2318356_25;
+Obj v_2318357_25 = PRIM_CDR(v_2316761_25);
+Obj v_2318358_25 = PRIM_CDR(v_2318357_25);
+Obj v_more = v_2318358_25;
+R[1] = v_name;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516756_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2316762_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, v_2316763_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, v_2316763_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, v_2316763_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518352_37= co->res;
-Obj name = R[1];
-Obj _3518353_37 = makeCons(co->gc, name, _3518352_37);
-Obj _3518354_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518353_37);
-coraReturn(co, _3518354_37);
+Obj v_2318359_25= co->res;
+Obj v_name = R[1];
+Obj v_2318360_25 = makeCons(co->gc, v_name, v_2318359_25);
+Obj v_2318361_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2318360_25);
+coraReturn(co, v_2318361_25);
 return;
 }
 }
@@ -886,69 +886,69 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516758_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518322_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518322_37) {
-Obj _3518323_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518324_37 = PRIM_ISCONS(_3518323_37);
-if (True == _3518324_37) {
-Obj _3518325_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518326_37 = PRIM_CAR(_3518325_37);
-Obj _3518327_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518326_37);
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518329_37 = PRIM_CDR(_3518328_37);
-Obj _3518330_37 = PRIM_ISCONS(_3518329_37);
-if (True == _3518330_37) {
-Obj _3518331_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_CDR(_3518331_37);
-Obj _3518333_37 = PRIM_CAR(_3518332_37);
-Obj pkg = _3518333_37;
-Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518335_37 = PRIM_CDR(_3518334_37);
-Obj _3518336_37 = PRIM_CDR(_3518335_37);
-Obj _3518337_37 = PRIM_EQ(Nil, _3518336_37);
-if (True == _3518337_37) {
-Obj _3518338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518338_37;
-Obj _3518339_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518340_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518339_37);
-R[1] = _3518340_37;
+Obj v_2316764_25 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318329_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318329_25) {
+Obj v_2318330_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318331_25 = PRIM_ISCONS(v_2318330_25);
+if (True == v_2318331_25) {
+Obj v_2318332_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318333_25 = PRIM_CAR(v_2318332_25);
+Obj v_2318334_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318333_25);
+if (True == v_2318334_25) {
+Obj v_2318335_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318336_25 = PRIM_CDR(v_2318335_25);
+Obj v_2318337_25 = PRIM_ISCONS(v_2318336_25);
+if (True == v_2318337_25) {
+Obj v_2318338_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318339_25 = PRIM_CDR(v_2318338_25);
+Obj v_2318340_25 = PRIM_CAR(v_2318339_25);
+Obj v_pkg = v_2318340_25;
+Obj v_2318341_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318342_25 = PRIM_CDR(v_2318341_25);
+Obj v_2318343_25 = PRIM_CDR(v_2318342_25);
+Obj v_2318344_25 = PRIM_EQ(Nil, v_2318343_25);
+if (True == v_2318344_25) {
+Obj v_2318345_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318345_25;
+Obj v_2318346_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2318347_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2318346_25);
+R[1] = v_2318347_25;
 saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, v_2316764_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, v_2316764_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, v_2316764_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, v_2316764_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, v_2316764_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518341_37= co->res;
-Obj _3518340_37 = R[1];
-Obj _3518342_37 = makeCons(co->gc, _3518340_37, _3518341_37);
-coraReturn(co, _3518342_37);
+Obj v_2318348_25= co->res;
+Obj v_2318347_25 = R[1];
+Obj v_2318349_25 = makeCons(co->gc, v_2318347_25, v_2318348_25);
+coraReturn(co, v_2318349_25);
 return;
 }
 }
@@ -958,48 +958,48 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516759_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518310_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518310_37) {
-Obj _3518311_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
-if (True == _3518312_37) {
-Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_CAR(_3518313_37);
-Obj _3518315_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj symbols = _3518317_37;
-Obj _3518318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518318_37;
-Obj _3518319_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518319_37;
+Obj v_2316765_25 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318317_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318317_25) {
+Obj v_2318318_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318319_25 = PRIM_ISCONS(v_2318318_25);
+if (True == v_2318319_25) {
+Obj v_2318320_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318321_25 = PRIM_CAR(v_2318320_25);
+Obj v_2318322_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318321_25);
+if (True == v_2318322_25) {
+Obj v_2318323_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318324_25 = PRIM_CDR(v_2318323_25);
+Obj v_symbols = v_2318324_25;
+Obj v_2318325_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318325_25;
+Obj v_2318326_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2318326_25;
 saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, v_2316765_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, v_2316765_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, v_2316765_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518320_37= co->res;
-Obj _3518319_37 = R[1];
-Obj _3518321_37 = makeCons(co->gc, _3518319_37, _3518320_37);
-coraReturn(co, _3518321_37);
+Obj v_2318327_25= co->res;
+Obj v_2318326_25 = R[1];
+Obj v_2318328_25 = makeCons(co->gc, v_2318326_25, v_2318327_25);
+coraReturn(co, v_2318328_25);
 return;
 }
 }
@@ -1009,33 +1009,33 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516760_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518305_37);
-if (True == _3518306_37) {
-Obj _3518307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518307_37;
+Obj v_2316766_25 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2318311_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318311_25) {
+Obj v_2318312_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318313_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318312_25);
+if (True == v_2318313_25) {
+Obj v_2318314_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318314_25;
 saveCont(co, clofun128, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, v_2316766_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, v_2316766_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518308_37= co->res;
-Obj _3518309_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518308_37);
-coraReturn(co, _3518309_37);
+Obj v_2318315_25= co->res;
+Obj v_2318316_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318315_25);
+coraReturn(co, v_2318316_25);
 return;
 }
 }
@@ -1056,73 +1056,73 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516747_37 = R[1];
-Obj _3516748_37 = R[2];
-Obj _3516749_37 = R[3];
-Obj _3516750_37 = R[4];
-Obj _3518265_37 = PRIM_EQ(Nil, _3516747_37);
-if (True == _3518265_37) {
-R[1] = _3516749_37;
-R[2] = _3516750_37;
+Obj v_2316753_25 = R[1];
+Obj v_2316754_25 = R[2];
+Obj v_2316755_25 = R[3];
+Obj v_2316756_25 = R[4];
+Obj v_2318272_25 = PRIM_EQ(Nil, v_2316753_25);
+if (True == v_2318272_25) {
+R[1] = v_2316755_25;
+R[2] = v_2316756_25;
 saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516748_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_2316754_25);
 return;
 } else {
-Obj _3516752_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516747_37, _3516748_37, _3516749_37, _3516750_37);
-Obj _3518292_37 = PRIM_ISCONS(_3516747_37);
-if (True == _3518292_37) {
-Obj _3518293_37 = PRIM_CAR(_3516747_37);
-Obj _3518294_37 = PRIM_ISCONS(_3518293_37);
-if (True == _3518294_37) {
-Obj _3518295_37 = PRIM_CAR(_3516747_37);
-Obj _3518296_37 = PRIM_CAR(_3518295_37);
-Obj _3518297_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518296_37);
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CAR(_3516747_37);
-Obj _3518299_37 = PRIM_CDR(_3518298_37);
-Obj exp = _3518299_37;
-Obj _3518300_37 = PRIM_CDR(_3516747_37);
-Obj more = _3518300_37;
-Obj _3518301_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518302_37 = makeCons(co->gc, _3518301_37, _3516748_37);
+Obj v_2316758_25 = makeNative(co->gc, 1, clofun125, 0, 4, v_2316753_25, v_2316754_25, v_2316755_25, v_2316756_25);
+Obj v_2318299_25 = PRIM_ISCONS(v_2316753_25);
+if (True == v_2318299_25) {
+Obj v_2318300_25 = PRIM_CAR(v_2316753_25);
+Obj v_2318301_25 = PRIM_ISCONS(v_2318300_25);
+if (True == v_2318301_25) {
+Obj v_2318302_25 = PRIM_CAR(v_2316753_25);
+Obj v_2318303_25 = PRIM_CAR(v_2318302_25);
+Obj v_2318304_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2318303_25);
+if (True == v_2318304_25) {
+Obj v_2318305_25 = PRIM_CAR(v_2316753_25);
+Obj v_2318306_25 = PRIM_CDR(v_2318305_25);
+Obj v_exp = v_2318306_25;
+Obj v_2318307_25 = PRIM_CDR(v_2316753_25);
+Obj v_more = v_2318307_25;
+Obj v_2318308_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2318309_25 = makeCons(co->gc, v_2318308_25, v_2316754_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518302_37, _3516749_37, _3516750_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318309_25, v_2316755_25, v_2316756_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v_2316758_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518267_37= co->res;
-Obj _3516750_37 = R[1];
-Obj _3518266_37 = R[2];
+Obj v_2318274_25= co->res;
+Obj v_2316756_25 = R[1];
+Obj v_2318273_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516750_37, _3518266_37, _3518267_37);
+coraCall2(co, v_2316756_25, v_2318273_25, v_2318274_25);
 return;
 }
 case 2:
 {
-Obj _3518266_37= co->res;
-Obj _3516749_37 = R[1];
-Obj _3516750_37 = R[2];
-R[1] = _3516750_37;
-R[2] = _3518266_37;
+Obj v_2318273_25= co->res;
+Obj v_2316755_25 = R[1];
+Obj v_2316756_25 = R[2];
+R[1] = v_2316756_25;
+R[2] = v_2318273_25;
 saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516749_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_2316755_25);
 return;
 }
 }
@@ -1132,39 +1132,39 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516753_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518281_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518281_37) {
-Obj _3518282_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518283_37 = PRIM_ISCONS(_3518282_37);
-if (True == _3518283_37) {
-Obj _3518284_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518285_37 = PRIM_CAR(_3518284_37);
-Obj _3518286_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518285_37);
-if (True == _3518286_37) {
-Obj _3518287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518288_37 = PRIM_CDR(_3518287_37);
-Obj exp = _3518288_37;
-Obj _3518289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518289_37;
-Obj _3518290_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518291_37 = makeCons(co->gc, _3518290_37, closureRef(R[0], 1));
+Obj v_2316759_25 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318288_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318288_25) {
+Obj v_2318289_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318290_25 = PRIM_ISCONS(v_2318289_25);
+if (True == v_2318290_25) {
+Obj v_2318291_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318292_25 = PRIM_CAR(v_2318291_25);
+Obj v_2318293_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2318292_25);
+if (True == v_2318293_25) {
+Obj v_2318294_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318295_25 = PRIM_CDR(v_2318294_25);
+Obj v_exp = v_2318295_25;
+Obj v_2318296_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318296_25;
+Obj v_2318297_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2318298_25 = makeCons(co->gc, v_2318297_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518291_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318298_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v_2316759_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v_2316759_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v_2316759_25);
 return;
 }
 }
@@ -1175,24 +1175,24 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518268_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518268_37) {
-Obj _3518269_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518269_37;
-Obj _3518270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518270_37;
-Obj _3518271_37 = makeCons(co->gc, exp, Nil);
-Obj _3518272_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518271_37);
-Obj _3518273_37 = makeCons(co->gc, _3518272_37, Nil);
-Obj _3518274_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518273_37);
-Obj _3518275_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518276_37 = makeCons(co->gc, _3518275_37, Nil);
-Obj _3518277_37 = makeCons(co->gc, _3518274_37, _3518276_37);
-Obj _3518278_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518277_37);
-Obj _3518279_37 = makeCons(co->gc, _3518278_37, closureRef(R[0], 1));
-Obj _3518280_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj v_2318275_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318275_25) {
+Obj v_2318276_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2318276_25;
+Obj v_2318277_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318277_25;
+Obj v_2318278_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2318279_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2318278_25);
+Obj v_2318280_25 = makeCons(co->gc, v_2318279_25, Nil);
+Obj v_2318281_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2318280_25);
+Obj v_2318282_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2318283_25 = makeCons(co->gc, v_2318282_25, Nil);
+Obj v_2318284_25 = makeCons(co->gc, v_2318281_25, v_2318283_25);
+Obj v_2318285_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2318284_25);
+Obj v_2318286_25 = makeCons(co->gc, v_2318285_25, closureRef(R[0], 1));
+Obj v_2318287_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518279_37, _3518280_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318286_25, v_2318287_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1207,37 +1207,37 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = R[1];
-Obj _3516742_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516741_37);
-Obj _3518255_37 = PRIM_ISCONS(_3516741_37);
-if (True == _3518255_37) {
-Obj _3518256_37 = PRIM_CAR(_3516741_37);
-Obj _3518257_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518256_37);
-if (True == _3518257_37) {
-Obj _3518258_37 = PRIM_CDR(_3516741_37);
-Obj _3518259_37 = PRIM_ISCONS(_3518258_37);
-if (True == _3518259_37) {
-Obj _3518260_37 = PRIM_CDR(_3516741_37);
-Obj _3518261_37 = PRIM_CAR(_3518260_37);
-Obj _3518262_37 = PRIM_CDR(_3516741_37);
-Obj _3518263_37 = PRIM_CDR(_3518262_37);
-Obj remain = _3518263_37;
+Obj v_2316747_25 = R[1];
+Obj v_2316748_25 = makeNative(co->gc, 1, clofun122, 0, 1, v_2316747_25);
+Obj v_2318262_25 = PRIM_ISCONS(v_2316747_25);
+if (True == v_2318262_25) {
+Obj v_2318263_25 = PRIM_CAR(v_2316747_25);
+Obj v_2318264_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318263_25);
+if (True == v_2318264_25) {
+Obj v_2318265_25 = PRIM_CDR(v_2316747_25);
+Obj v_2318266_25 = PRIM_ISCONS(v_2318265_25);
+if (True == v_2318266_25) {
+Obj v_2318267_25 = PRIM_CDR(v_2316747_25);
+Obj v_2318268_25 = PRIM_CAR(v_2318267_25);
+Obj v_2318269_25 = PRIM_CDR(v_2316747_25);
+Obj v_2318270_25 = PRIM_CDR(v_2318269_25);
+Obj v_remain = v_2318270_25;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, v_2316748_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, v_2316748_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, v_2316748_25);
 return;
 }
 }
@@ -1248,25 +1248,25 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516743_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518251_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518251_37) {
-Obj _3518252_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518253_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518252_37);
-if (True == _3518253_37) {
-Obj _3518254_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518254_37;
+Obj v_2316749_25 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
+Obj v_2318258_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318258_25) {
+Obj v_2318259_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318260_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318259_25);
+if (True == v_2318260_25) {
+Obj v_2318261_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318261_25;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, v_2316749_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, v_2316749_25);
 return;
 }
 }
@@ -1277,36 +1277,36 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj _3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518242_37) {
-Obj _3518243_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518244_37 = PRIM_ISCONS(_3518243_37);
-if (True == _3518244_37) {
-Obj _3518245_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518246_37 = PRIM_CAR(_3518245_37);
-Obj _3518247_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518246_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518249_37 = PRIM_CDR(_3518248_37);
-Obj _3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518250_37;
+Obj v_2316750_25 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
+Obj v_2318249_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318249_25) {
+Obj v_2318250_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318251_25 = PRIM_ISCONS(v_2318250_25);
+if (True == v_2318251_25) {
+Obj v_2318252_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318253_25 = PRIM_CAR(v_2318252_25);
+Obj v_2318254_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318253_25);
+if (True == v_2318254_25) {
+Obj v_2318255_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318256_25 = PRIM_CDR(v_2318255_25);
+Obj v_2318257_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318257_25;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, v_2316750_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, v_2316750_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, v_2316750_25);
 return;
 }
 }
@@ -1317,67 +1317,67 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516745_37 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj _3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518224_37) {
-Obj _3518225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518226_37 = PRIM_ISCONS(_3518225_37);
-if (True == _3518226_37) {
-Obj _3518227_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518228_37 = PRIM_CAR(_3518227_37);
-Obj _3518229_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518228_37);
-if (True == _3518229_37) {
-Obj _3518230_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518231_37 = PRIM_CDR(_3518230_37);
-Obj _3518232_37 = PRIM_ISCONS(_3518231_37);
-if (True == _3518232_37) {
-Obj _3518233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518234_37 = PRIM_CDR(_3518233_37);
-Obj _3518235_37 = PRIM_CAR(_3518234_37);
-Obj pkg = _3518235_37;
-Obj _3518236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518237_37 = PRIM_CDR(_3518236_37);
-Obj _3518238_37 = PRIM_CDR(_3518237_37);
-Obj _3518239_37 = PRIM_EQ(Nil, _3518238_37);
-if (True == _3518239_37) {
-Obj _3518240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518240_37;
-R[1] = remain;
+Obj v_2316751_25 = makeNative(co->gc, 1, clofun119, 0, 0);
+Obj v_2318231_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318231_25) {
+Obj v_2318232_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318233_25 = PRIM_ISCONS(v_2318232_25);
+if (True == v_2318233_25) {
+Obj v_2318234_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318235_25 = PRIM_CAR(v_2318234_25);
+Obj v_2318236_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318235_25);
+if (True == v_2318236_25) {
+Obj v_2318237_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318238_25 = PRIM_CDR(v_2318237_25);
+Obj v_2318239_25 = PRIM_ISCONS(v_2318238_25);
+if (True == v_2318239_25) {
+Obj v_2318240_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318241_25 = PRIM_CDR(v_2318240_25);
+Obj v_2318242_25 = PRIM_CAR(v_2318241_25);
+Obj v_pkg = v_2318242_25;
+Obj v_2318243_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318244_25 = PRIM_CDR(v_2318243_25);
+Obj v_2318245_25 = PRIM_CDR(v_2318244_25);
+Obj v_2318246_25 = PRIM_EQ(Nil, v_2318245_25);
+if (True == v_2318246_25) {
+Obj v_2318247_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318247_25;
+R[1] = v_remain;
 saveCont(co, clofun120, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v_2316751_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518241_37= co->res;
-Obj remain = R[1];
+Obj v_2318248_25= co->res;
+Obj v_remain = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 }
 }
@@ -1397,102 +1397,102 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj bc = R[2];
-Obj globals = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_to = R[1];
+Obj v_bc = R[2];
+Obj v_globals = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518222_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
+Obj v_2318229_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj _3518221_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_2318228_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518221_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v_2318228_25);
 return;
 }
 case 3:
 {
-Obj _3518220_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_2318227_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_bc);
 return;
 }
 case 4:
 {
-Obj _3518219_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_2318226_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 5:
 {
-Obj _3518216_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_2318223_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, to), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, v_to), v_bc);
 return;
 }
 case 6:
 {
-Obj _3518215_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_2318222_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 7:
 {
-Obj _3518214_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_2318221_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun118, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1502,9 +1502,9 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
+Obj v_group = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
 return;
 }
 }
@@ -1514,15 +1514,15 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
-Obj _3518217_37 = PRIM_CAR(group);
+Obj v_group = R[1];
+Obj v_2318224_25 = PRIM_CAR(v_group);
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518217_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v_2318224_25);
 return;
 }
 case 1:
 {
-Obj _3518218_37= co->res;
+Obj v_2318225_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1534,140 +1534,140 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj globals = R[2];
-Obj label = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_label = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun115, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518212_37= co->res;
-Obj to = R[1];
+Obj v_2318219_25= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518211_37= co->res;
-Obj to = R[1];
-R[1] = to;
+Obj v_2318218_25= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
 saveCont(co, clofun115, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3518210_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = to;
+Obj v_2318217_25= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_to;
 saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj _3518209_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj v_2318216_25= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun115, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj _3518208_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj v_2318215_25= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 6:
 {
-Obj _3518200_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = label;
-R[2] = to;
+Obj v_2318206_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun115, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, to), MAKE_NUMBER(0), globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 7:
 {
-Obj _3518199_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_2318205_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun115, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 8:
 {
-Obj _3518198_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_2318204_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518198_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v_2318204_25);
 return;
 }
 case 9:
 {
-Obj _3518197_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_2318203_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun115, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_globals);
 return;
 }
 case 10:
 {
-Obj _3518196_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_2318202_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun115, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 11:
 {
-Obj _3518195_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_2318201_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1677,70 +1677,79 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj sym = R[2];
-R[1] = sym;
-R[2] = acc;
-saveCont(co, clofun114, 6, R);
+Obj v_acc = R[1];
+Obj v_sym = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun114, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3518206_37= co->res;
-Obj acc = R[1];
-Obj _3518207_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518207_37);
+Obj v_2318213_25= co->res;
+Obj v_acc = R[1];
+Obj v_2318214_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318214_25);
 return;
 }
 case 2:
 {
-Obj _3518205_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2318212_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3518204_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2318211_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518204_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_2318211_25);
 return;
 }
 case 4:
 {
-Obj _3518203_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v_2318210_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v_2318210_25);
 return;
 }
 case 5:
 {
-Obj _3518202_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
+Obj v_2318209_25= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun114, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v_sym);
 return;
 }
 case 6:
 {
-Obj _3518201_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
+Obj v_2318208_25= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
 saveCont(co, clofun114, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+return;
+}
+case 7:
+{
+Obj v_2318207_25= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun114, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
@@ -1750,221 +1759,221 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj group = R[2];
-Obj globals = R[3];
-Obj _3518173_37 = PRIM_CAR(group);
-Obj label = _3518173_37;
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_to = R[1];
+Obj v_group = R[2];
+Obj v_globals = R[3];
+Obj v_2318179_25 = PRIM_CAR(v_group);
+Obj v_label = v_2318179_25;
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun113, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_group);
 return;
 }
 case 1:
 {
-Obj _3518193_37= co->res;
-Obj to = R[1];
+Obj v_2318199_25= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518192_37= co->res;
-Obj to = R[1];
-R[1] = to;
+Obj v_2318198_25= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
 saveCont(co, clofun113, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518191_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-R[1] = to;
+Obj v_2318197_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_lam = R[3];
+Obj v_to = R[4];
+R[1] = v_to;
 saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518191_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2318197_25);
 return;
 }
 case 4:
 {
-Obj _3518183_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
+Obj v_2318189_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_lam = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_lam;
+R[4] = v_to;
 saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 5:
 {
-Obj _3518182_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
+Obj v_2318188_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_lam = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_lam;
+R[4] = v_to;
 saveCont(co, clofun113, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3518181_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
+Obj v_2318187_25= co->res;
+Obj v_params = R[1];
+Obj v_first_2dstmt = R[2];
+Obj v_globals = R[3];
+Obj v_label = R[4];
+Obj v_lam = R[5];
+Obj v_to = R[6];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_lam;
+R[4] = v_to;
 saveCont(co, clofun113, 5, R);
-Obj __args[5] = {globals, label, params, to, first_45stmt};
+Obj __args[5] = {v_globals, v_label, v_params, v_to, v_first_2dstmt};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518180_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
+Obj v_2318186_25= co->res;
+Obj v_params = R[1];
+Obj v_first_2dstmt = R[2];
+Obj v_globals = R[3];
+Obj v_label = R[4];
+Obj v_lam = R[5];
+Obj v_to = R[6];
+R[1] = v_params;
+R[2] = v_first_2dstmt;
+R[3] = v_globals;
+R[4] = v_label;
+R[5] = v_lam;
+R[6] = v_to;
 saveCont(co, clofun113, 6, R);
-Obj __args[5] = {globals, label, Nil, to, params};
+Obj __args[5] = {v_globals, v_label, Nil, v_to, v_params};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3518179_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
+Obj v_2318185_25= co->res;
+Obj v_params = R[1];
+Obj v_first_2dstmt = R[2];
+Obj v_globals = R[3];
+Obj v_label = R[4];
+Obj v_lam = R[5];
+Obj v_to = R[6];
+R[1] = v_params;
+R[2] = v_first_2dstmt;
+R[3] = v_globals;
+R[4] = v_label;
+R[5] = v_lam;
+R[6] = v_to;
 saveCont(co, clofun113, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3518178_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
+Obj v_2318184_25= co->res;
+Obj v_params = R[1];
+Obj v_first_2dstmt = R[2];
+Obj v_globals = R[3];
+Obj v_label = R[4];
+Obj v_lam = R[5];
+Obj v_to = R[6];
+R[1] = v_params;
+R[2] = v_first_2dstmt;
+R[3] = v_globals;
+R[4] = v_label;
+R[5] = v_lam;
+R[6] = v_to;
 saveCont(co, clofun113, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3518177_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
+Obj v_2318183_25= co->res;
+Obj v_params = R[1];
+Obj v_first_2dstmt = R[2];
+Obj v_globals = R[3];
+Obj v_label = R[4];
+Obj v_lam = R[5];
+Obj v_to = R[6];
+R[1] = v_params;
+R[2] = v_first_2dstmt;
+R[3] = v_globals;
+R[4] = v_label;
+R[5] = v_lam;
+R[6] = v_to;
 saveCont(co, clofun113, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3518176_37= co->res;
-Obj params = R[1];
-Obj globals = R[2];
-Obj label = R[3];
-Obj lam = R[4];
-Obj to = R[5];
-Obj first_45stmt = _3518176_37;
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
+Obj v_2318182_25= co->res;
+Obj v_params = R[1];
+Obj v_globals = R[2];
+Obj v_label = R[3];
+Obj v_lam = R[4];
+Obj v_to = R[5];
+Obj v_first_2dstmt = v_2318182_25;
+R[1] = v_params;
+R[2] = v_first_2dstmt;
+R[3] = v_globals;
+R[4] = v_label;
+R[5] = v_lam;
+R[6] = v_to;
 saveCont(co, clofun113, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v_label);
 return;
 }
 case 12:
 {
-Obj _3518175_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-Obj params = _3518175_37;
-R[1] = params;
-R[2] = globals;
-R[3] = label;
-R[4] = lam;
-R[5] = to;
+Obj v_2318181_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_lam = R[3];
+Obj v_to = R[4];
+Obj v_params = v_2318181_25;
+R[1] = v_params;
+R[2] = v_globals;
+R[3] = v_label;
+R[4] = v_lam;
+R[5] = v_to;
 saveCont(co, clofun113, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
 return;
 }
 case 13:
 {
-Obj _3518174_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-Obj lam = _3518174_37;
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
+Obj v_2318180_25= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+Obj v_lam = v_2318180_25;
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_lam;
+R[4] = v_to;
 saveCont(co, clofun113, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
 return;
 }
 }
@@ -1974,73 +1983,73 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj cont = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_cont = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun112, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3518189_37= co->res;
-Obj acc = R[1];
-Obj _3518190_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518190_37);
+Obj v_2318195_25= co->res;
+Obj v_acc = R[1];
+Obj v_2318196_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318196_25);
 return;
 }
 case 2:
 {
-Obj _3518188_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2318194_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun112, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518187_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v_2318193_25= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518187_37, closureRef(R[0], 3), cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2318193_25, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518186_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v_2318192_25= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun112, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3518185_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v_2318191_25= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun112, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3518184_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v_2318190_25= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun112, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -2050,23 +2059,23 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = R[1];
-Obj _3516738_37 = R[2];
-Obj _3518167_37 = PRIM_EQ(Nil, _3516738_37);
-if (True == _3518167_37) {
+Obj v_2316743_25 = R[1];
+Obj v_2316744_25 = R[2];
+Obj v_2318173_25 = PRIM_EQ(Nil, v_2316744_25);
+if (True == v_2318173_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518168_37 = PRIM_ISCONS(_3516738_37);
-if (True == _3518168_37) {
-Obj _3518169_37 = PRIM_CAR(_3516738_37);
-Obj x = _3518169_37;
-Obj _3518170_37 = PRIM_CDR(_3516738_37);
-Obj y = _3518170_37;
-R[1] = _3516737_37;
-R[2] = y;
+Obj v_2318174_25 = PRIM_ISCONS(v_2316744_25);
+if (True == v_2318174_25) {
+Obj v_2318175_25 = PRIM_CAR(v_2316744_25);
+Obj v_x = v_2318175_25;
+Obj v_2318176_25 = PRIM_CDR(v_2316744_25);
+Obj v_y = v_2318176_25;
+R[1] = v_2316743_25;
+R[2] = v_y;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, _3516737_37, x);
+coraCall1(co, v_2316743_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2077,11 +2086,11 @@ return;
 }
 case 1:
 {
-Obj _3518171_37= co->res;
-Obj _3516737_37 = R[1];
-Obj y = R[2];
+Obj v_2318177_25= co->res;
+Obj v_2316743_25 = R[1];
+Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516737_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v_2316743_25, v_y);
 return;
 }
 }
@@ -2091,47 +2100,47 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
-R[1] = exp;
+Obj v_globals = R[1];
+Obj v_exp = R[2];
+R[1] = v_exp;
 saveCont(co, clofun110, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518165_37= co->res;
+Obj v_2318171_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518165_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v_2318171_25);
 return;
 }
 case 2:
 {
-Obj _3518164_37= co->res;
+Obj v_2318170_25= co->res;
 saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518164_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2318170_25);
 return;
 }
 case 3:
 {
-Obj _3518163_37= co->res;
+Obj v_2318169_25= co->res;
 saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518163_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2318169_25);
 return;
 }
 case 4:
 {
-Obj _3518162_37= co->res;
+Obj v_2318168_25= co->res;
 saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518162_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2318168_25);
 return;
 }
 case 5:
 {
-Obj _3518161_37= co->res;
-Obj exp = R[1];
+Obj v_2318167_25= co->res;
+Obj v_exp = R[1];
 saveCont(co, clofun110, 4, R);
-coraCall1(co, _3518161_37, exp);
+coraCall1(co, v_2318167_25, v_exp);
 return;
 }
 }
@@ -2141,29 +2150,29 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun109, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3518159_37= co->res;
-Obj obj = R[1];
-Obj fns = _3518159_37;
+Obj v_2318165_25= co->res;
+Obj v_obj = R[1];
+Obj v_fns = v_2318165_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj _3518158_37= co->res;
-Obj exp = R[1];
-Obj obj = _3518158_37;
-R[1] = obj;
+Obj v_2318164_25= co->res;
+Obj v_exp = R[1];
+Obj v_obj = v_2318164_25;
+R[1] = v_obj;
 saveCont(co, clofun109, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
 return;
 }
 }
@@ -2173,23 +2182,23 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = R[1];
-Obj _3516734_37 = R[2];
-Obj _3518151_37 = PRIM_EQ(Nil, _3516734_37);
-if (True == _3518151_37) {
-coraReturn(co, _3516733_37);
+Obj v_2316739_25 = R[1];
+Obj v_2316740_25 = R[2];
+Obj v_2318157_25 = PRIM_EQ(Nil, v_2316740_25);
+if (True == v_2318157_25) {
+coraReturn(co, v_2316739_25);
 return;
 } else {
-Obj _3518152_37 = PRIM_ISCONS(_3516734_37);
-if (True == _3518152_37) {
-Obj _3518153_37 = PRIM_CAR(_3516734_37);
-Obj hd = _3518153_37;
-Obj _3518154_37 = PRIM_CDR(_3516734_37);
-Obj more = _3518154_37;
-Obj _3518155_37 = makeCons(co->gc, _3516733_37, Nil);
-Obj _3518156_37 = makeCons(co->gc, hd, _3518155_37);
+Obj v_2318158_25 = PRIM_ISCONS(v_2316740_25);
+if (True == v_2318158_25) {
+Obj v_2318159_25 = PRIM_CAR(v_2316740_25);
+Obj v_hd = v_2318159_25;
+Obj v_2318160_25 = PRIM_CDR(v_2316740_25);
+Obj v_more = v_2318160_25;
+Obj v_2318161_25 = makeCons(co->gc, v_2316739_25, Nil);
+Obj v_2318162_25 = makeCons(co->gc, v_hd, v_2318161_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518156_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v_2318162_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2205,70 +2214,70 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun107, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3518149_37= co->res;
-Obj v = R[1];
+Obj v_2318155_25= co->res;
+Obj v_v = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3518148_37= co->res;
-Obj v = R[1];
-Obj e2 = _3518148_37;
-R[1] = v;
+Obj v_2318154_25= co->res;
+Obj v_v = R[1];
+Obj v_e2 = v_2318154_25;
+R[1] = v_v;
 saveCont(co, clofun107, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_v, v_e2);
 return;
 }
 case 3:
 {
-Obj _3518147_37= co->res;
-Obj v = R[1];
-Obj e1 = _3518147_37;
-R[1] = v;
+Obj v_2318153_25= co->res;
+Obj v_v = R[1];
+Obj v_e1 = v_2318153_25;
+R[1] = v_v;
 saveCont(co, clofun107, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v_e1);
 return;
 }
 case 4:
 {
-Obj _3518146_37= co->res;
-Obj exp = R[1];
-Obj v = R[2];
-R[1] = v;
+Obj v_2318152_25= co->res;
+Obj v_exp = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
 saveCont(co, clofun107, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, v_exp);
 return;
 }
 case 5:
 {
-Obj _3518145_37= co->res;
-Obj exp = R[1];
-Obj v = R[2];
-R[1] = exp;
-R[2] = v;
+Obj v_2318151_25= co->res;
+Obj v_exp = R[1];
+Obj v_v = R[2];
+R[1] = v_exp;
+R[2] = v_v;
 saveCont(co, clofun107, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3518144_37= co->res;
-Obj exp = R[1];
-Obj v = _3518144_37;
-R[1] = exp;
-R[2] = v;
+Obj v_2318150_25= co->res;
+Obj v_exp = R[1];
+Obj v_v = v_2318150_25;
+R[1] = v_exp;
+R[2] = v_v;
 saveCont(co, clofun107, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2278,9 +2287,9 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v_exp);
 return;
 }
 }
@@ -2290,9 +2299,9 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), exp, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_exp, globalRef(co, getBinding(co, packageID, 70)));
 return;
 }
 }
@@ -2302,9 +2311,9 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, v_exp);
 return;
 }
 }
@@ -2314,10 +2323,10 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
+Obj v_globals = R[1];
+Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, globals, exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, v_globals, v_exp);
 return;
 }
 }
@@ -2327,39 +2336,39 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = label;
-R[2] = w;
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_label;
+R[2] = v_w;
 saveCont(co, clofun102, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3518138_37= co->res;
-Obj w = R[1];
+Obj v_2318144_25= co->res;
+Obj v_w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518137_37= co->res;
-Obj w = R[1];
-R[1] = w;
+Obj v_2318143_25= co->res;
+Obj v_w = R[1];
+R[1] = v_w;
 saveCont(co, clofun102, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3518136_37= co->res;
-Obj label = R[1];
-Obj w = R[2];
-R[1] = w;
+Obj v_2318142_25= co->res;
+Obj v_label = R[1];
+Obj v_w = R[2];
+R[1] = v_w;
 saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_w, v_label);
 return;
 }
 }
@@ -2369,21 +2378,21 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = w;
-R[2] = label;
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_w;
+R[2] = v_label;
 saveCont(co, clofun101, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3518134_37= co->res;
-Obj w = R[1];
-Obj label = R[2];
+Obj v_2318140_25= co->res;
+Obj v_w = R[1];
+Obj v_label = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_w, v_label);
 return;
 }
 }
@@ -2393,136 +2402,136 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
-Obj _3516731_37 = R[5];
-Obj _3516732_37 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj _3518112_37 = PRIM_ISCONS(_3516731_37);
-if (True == _3518112_37) {
-Obj _3518113_37 = PRIM_CAR(_3516731_37);
-Obj _3518114_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518113_37);
-if (True == _3518114_37) {
-Obj _3518115_37 = PRIM_CDR(_3516731_37);
-Obj _3518116_37 = PRIM_ISCONS(_3518115_37);
-if (True == _3518116_37) {
-Obj _3518117_37 = PRIM_CDR(_3516731_37);
-Obj _3518118_37 = PRIM_CAR(_3518117_37);
-Obj var = _3518118_37;
-Obj _3518119_37 = PRIM_CDR(_3516731_37);
-Obj _3518120_37 = PRIM_CDR(_3518119_37);
-Obj _3518121_37 = PRIM_ISCONS(_3518120_37);
-if (True == _3518121_37) {
-Obj _3518122_37 = PRIM_CDR(_3516731_37);
-Obj _3518123_37 = PRIM_CDR(_3518122_37);
-Obj _3518124_37 = PRIM_CAR(_3518123_37);
-Obj body = _3518124_37;
-Obj _3518125_37 = PRIM_CDR(_3516731_37);
-Obj _3518126_37 = PRIM_CDR(_3518125_37);
-Obj _3518127_37 = PRIM_CDR(_3518126_37);
-Obj fvs = _3518127_37;
-R[1] = var;
-R[2] = fvs;
-R[3] = _3516727_37;
-R[4] = _3516728_37;
-R[5] = _3516729_37;
-R[6] = _3516730_37;
-R[7] = body;
+Obj v_2316733_25 = R[1];
+Obj v_2316734_25 = R[2];
+Obj v_2316735_25 = R[3];
+Obj v_2316736_25 = R[4];
+Obj v_2316737_25 = R[5];
+Obj v_2316738_25 = makeNative(co->gc, 1, clofun99, 0, 0);
+Obj v_2318118_25 = PRIM_ISCONS(v_2316737_25);
+if (True == v_2318118_25) {
+Obj v_2318119_25 = PRIM_CAR(v_2316737_25);
+Obj v_2318120_25 = PRIM_EQ(getBinding(co, packageID, 62).name, v_2318119_25);
+if (True == v_2318120_25) {
+Obj v_2318121_25 = PRIM_CDR(v_2316737_25);
+Obj v_2318122_25 = PRIM_ISCONS(v_2318121_25);
+if (True == v_2318122_25) {
+Obj v_2318123_25 = PRIM_CDR(v_2316737_25);
+Obj v_2318124_25 = PRIM_CAR(v_2318123_25);
+Obj v_var = v_2318124_25;
+Obj v_2318125_25 = PRIM_CDR(v_2316737_25);
+Obj v_2318126_25 = PRIM_CDR(v_2318125_25);
+Obj v_2318127_25 = PRIM_ISCONS(v_2318126_25);
+if (True == v_2318127_25) {
+Obj v_2318128_25 = PRIM_CDR(v_2316737_25);
+Obj v_2318129_25 = PRIM_CDR(v_2318128_25);
+Obj v_2318130_25 = PRIM_CAR(v_2318129_25);
+Obj v_body = v_2318130_25;
+Obj v_2318131_25 = PRIM_CDR(v_2316737_25);
+Obj v_2318132_25 = PRIM_CDR(v_2318131_25);
+Obj v_2318133_25 = PRIM_CDR(v_2318132_25);
+Obj v_fvs = v_2318133_25;
+R[1] = v_var;
+R[2] = v_fvs;
+R[3] = v_2316733_25;
+R[4] = v_2316734_25;
+R[5] = v_2316735_25;
+R[6] = v_2316736_25;
+R[7] = v_body;
 saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_2316736_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v_2316738_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518132_37= co->res;
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
-Obj body = R[5];
+Obj v_2318138_25= co->res;
+Obj v_2316733_25 = R[1];
+Obj v_2316734_25 = R[2];
+Obj v_2316735_25 = R[3];
+Obj v_2316736_25 = R[4];
+Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, body};
+Obj __args[5] = {v_2316733_25, v_2316734_25, v_2316735_25, v_2316736_25, v_body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518131_37= co->res;
-Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
-Obj body = R[6];
-R[1] = _3516727_37;
-R[2] = _3516728_37;
-R[3] = _3516729_37;
-R[4] = _3516730_37;
-R[5] = body;
+Obj v_2318137_25= co->res;
+Obj v_fvs = R[1];
+Obj v_2316733_25 = R[2];
+Obj v_2316734_25 = R[3];
+Obj v_2316735_25 = R[4];
+Obj v_2316736_25 = R[5];
+Obj v_body = R[6];
+R[1] = v_2316733_25;
+R[2] = v_2316734_25;
+R[3] = v_2316735_25;
+R[4] = v_2316736_25;
+R[5] = v_body;
 saveCont(co, clofun100, 1, R);
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, fvs};
+Obj __args[5] = {v_2316733_25, v_2316734_25, v_2316735_25, v_2316736_25, v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518130_37= co->res;
-Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
-Obj body = R[6];
-R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
-R[6] = body;
+Obj v_2318136_25= co->res;
+Obj v_fvs = R[1];
+Obj v_2316733_25 = R[2];
+Obj v_2316734_25 = R[3];
+Obj v_2316735_25 = R[4];
+Obj v_2316736_25 = R[5];
+Obj v_body = R[6];
+R[1] = v_fvs;
+R[2] = v_2316733_25;
+R[3] = v_2316734_25;
+R[4] = v_2316735_25;
+R[5] = v_2316736_25;
+R[6] = v_body;
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_2316736_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518128_37= co->res;
-Obj var = R[1];
-Obj fvs = R[2];
-Obj _3516727_37 = R[3];
-Obj _3516728_37 = R[4];
-Obj _3516729_37 = R[5];
-Obj _3516730_37 = R[6];
-Obj body = R[7];
-Obj _3518129_37 = PRIM_CAR(var);
-R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
-R[6] = body;
+Obj v_2318134_25= co->res;
+Obj v_var = R[1];
+Obj v_fvs = R[2];
+Obj v_2316733_25 = R[3];
+Obj v_2316734_25 = R[4];
+Obj v_2316735_25 = R[5];
+Obj v_2316736_25 = R[6];
+Obj v_body = R[7];
+Obj v_2318135_25 = PRIM_CAR(v_var);
+R[1] = v_fvs;
+R[2] = v_2316733_25;
+R[3] = v_2316734_25;
+R[4] = v_2316735_25;
+R[5] = v_2316736_25;
+R[6] = v_body;
 saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516730_37, _3518129_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_2316736_25, v_2318135_25);
 return;
 }
 }
@@ -2543,25 +2552,25 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj l = R[5];
-Obj _3518098_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518098_37;
-Obj _3518109_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
-R[1] = l;
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_l = R[5];
+Obj v_2318104_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2318104_25;
+Obj v_2318115_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun97, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+R[1] = v_l;
 saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_generate_2dinst_2dlist_2dh);
 return;
 }
 case 1:
 {
-Obj _3518110_37= co->res;
-Obj l = R[1];
+Obj v_2318116_25= co->res;
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518110_37, l);
+coraCall1(co, v_2318116_25, v_l);
 return;
 }
 }
@@ -2571,21 +2580,21 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3518099_37 = PRIM_EQ(Nil, x);
-if (True == _3518099_37) {
+Obj v_x = R[1];
+Obj v_2318105_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2318105_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518100_37 = PRIM_ISCONS(x);
-if (True == _3518100_37) {
-Obj _3518101_37 = PRIM_CAR(x);
-Obj a = _3518101_37;
-Obj _3518102_37 = PRIM_CDR(x);
-Obj b = _3518102_37;
-R[1] = b;
+Obj v_2318106_25 = PRIM_ISCONS(v_x);
+if (True == v_2318106_25) {
+Obj v_2318107_25 = PRIM_CAR(v_x);
+Obj v_a = v_2318107_25;
+Obj v_2318108_25 = PRIM_CDR(v_x);
+Obj v_b = v_2318108_25;
+R[1] = v_b;
 saveCont(co, clofun97, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2597,42 +2606,42 @@ return;
 }
 case 1:
 {
-Obj _3518107_37= co->res;
-Obj b = R[1];
+Obj v_2318113_25= co->res;
+Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518107_37, b);
+coraCall1(co, v_2318113_25, v_b);
 return;
 }
 case 2:
 {
-Obj _3518106_37= co->res;
-Obj b = R[1];
-R[1] = b;
+Obj v_2318112_25= co->res;
+Obj v_b = R[1];
+R[1] = v_b;
 saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518108_37= co->res;
-Obj b = R[1];
+Obj v_2318114_25= co->res;
+Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518108_37, b);
+coraCall1(co, v_2318114_25, v_b);
 return;
 }
 case 4:
 {
-Obj _3518104_37= co->res;
-Obj b = R[1];
-Obj _3518105_37 = primNot(_3518104_37);
-if (True == _3518105_37) {
-R[1] = b;
+Obj v_2318110_25= co->res;
+Obj v_b = R[1];
+Obj v_2318111_25 = primNot(v_2318110_25);
+if (True == v_2318111_25) {
+R[1] = v_b;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = b;
+R[1] = v_b;
 saveCont(co, clofun97, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
@@ -2640,11 +2649,11 @@ return;
 }
 case 5:
 {
-Obj _3518103_37= co->res;
-Obj b = R[1];
-R[1] = b;
+Obj v_2318109_25= co->res;
+Obj v_b = R[1];
+R[1] = v_b;
 saveCont(co, clofun97, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), b);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_b);
 return;
 }
 }
@@ -2654,27 +2663,27 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env1 = R[3];
-Obj w = R[4];
-Obj x1 = R[5];
-Obj _3517811_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517811_37;
-Obj _3518095_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
-R[1] = x1;
-R[2] = env1;
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env1 = R[3];
+Obj v_w = R[4];
+Obj v_x1 = R[5];
+Obj v_2317817_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2317817_25;
+Obj v_2318101_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun95, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+R[1] = v_x1;
+R[2] = v_env1;
 saveCont(co, clofun96, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45h);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_generate_2dinst_2dh);
 return;
 }
 case 1:
 {
-Obj _3518096_37= co->res;
-Obj x1 = R[1];
-Obj env1 = R[2];
+Obj v_2318102_25= co->res;
+Obj v_x1 = R[1];
+Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518096_37, x1, env1);
+coraCall2(co, v_2318102_25, v_x1, v_env1);
 return;
 }
 }
@@ -2684,76 +2693,76 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x2 = R[1];
-Obj env = R[2];
-Obj _3517812_37 = primIsSymbol(x2);
-if (True == _3517812_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
-return;
-} else {
-Obj _3516713_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518082_37 = PRIM_ISCONS(x2);
-if (True == _3518082_37) {
-Obj _3518083_37 = PRIM_CAR(x2);
-Obj _3518084_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518083_37);
-if (True == _3518084_37) {
-Obj _3518085_37 = PRIM_CDR(x2);
-Obj _3518086_37 = PRIM_ISCONS(_3518085_37);
-if (True == _3518086_37) {
-Obj _3518087_37 = PRIM_CDR(x2);
-Obj _3518088_37 = PRIM_CAR(_3518087_37);
-Obj x = _3518088_37;
-Obj _3518089_37 = PRIM_CDR(x2);
-Obj _3518090_37 = PRIM_CDR(_3518089_37);
-Obj _3518091_37 = PRIM_EQ(Nil, _3518090_37);
-if (True == _3518091_37) {
-R[1] = x;
+Obj v_x2 = R[1];
+Obj v_env = R[2];
+Obj v_2317818_25 = primIsSymbol(v_x2);
+if (True == v_2317818_25) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_x2);
+return;
+} else {
+Obj v_2316719_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2318088_25 = PRIM_ISCONS(v_x2);
+if (True == v_2318088_25) {
+Obj v_2318089_25 = PRIM_CAR(v_x2);
+Obj v_2318090_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318089_25);
+if (True == v_2318090_25) {
+Obj v_2318091_25 = PRIM_CDR(v_x2);
+Obj v_2318092_25 = PRIM_ISCONS(v_2318091_25);
+if (True == v_2318092_25) {
+Obj v_2318093_25 = PRIM_CDR(v_x2);
+Obj v_2318094_25 = PRIM_CAR(v_2318093_25);
+Obj v_x = v_2318094_25;
+Obj v_2318095_25 = PRIM_CDR(v_x2);
+Obj v_2318096_25 = PRIM_CDR(v_2318095_25);
+Obj v_2318097_25 = PRIM_EQ(Nil, v_2318096_25);
+if (True == v_2318097_25) {
+R[1] = v_x;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, v_2316719_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, v_2316719_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, v_2316719_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, v_2316719_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518094_37= co->res;
+Obj v_2318100_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518093_37= co->res;
+Obj v_2318099_25= co->res;
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518093_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_2318099_25);
 return;
 }
 case 3:
 {
-Obj _3518092_37= co->res;
-Obj x = R[1];
+Obj v_2318098_25= co->res;
+Obj v_x = R[1];
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_x, closureRef(R[0], 2));
 return;
 }
 }
@@ -2763,60 +2772,60 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516714_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518070_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518070_37) {
-Obj _3518071_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518072_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518071_37);
-if (True == _3518072_37) {
-Obj _3518073_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518074_37 = PRIM_ISCONS(_3518073_37);
-if (True == _3518074_37) {
-Obj _3518075_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518076_37 = PRIM_CAR(_3518075_37);
-Obj idx = _3518076_37;
-Obj _3518077_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518078_37 = PRIM_CDR(_3518077_37);
-Obj _3518079_37 = PRIM_EQ(Nil, _3518078_37);
-if (True == _3518079_37) {
-R[1] = idx;
+Obj v_2316720_25 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2318076_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2318076_25) {
+Obj v_2318077_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2318078_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318077_25);
+if (True == v_2318078_25) {
+Obj v_2318079_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318080_25 = PRIM_ISCONS(v_2318079_25);
+if (True == v_2318080_25) {
+Obj v_2318081_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318082_25 = PRIM_CAR(v_2318081_25);
+Obj v_idx = v_2318082_25;
+Obj v_2318083_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318084_25 = PRIM_CDR(v_2318083_25);
+Obj v_2318085_25 = PRIM_EQ(Nil, v_2318084_25);
+if (True == v_2318085_25) {
+R[1] = v_idx;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, v_2316720_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, v_2316720_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, v_2316720_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, v_2316720_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518081_37= co->res;
+Obj v_2318087_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518080_37= co->res;
-Obj idx = R[1];
+Obj v_2318086_25= co->res;
+Obj v_idx = R[1];
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_idx);
 return;
 }
 }
@@ -2826,145 +2835,145 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516715_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518046_37) {
-Obj _3518047_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518048_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518047_37);
-if (True == _3518048_37) {
-Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518050_37 = PRIM_ISCONS(_3518049_37);
-if (True == _3518050_37) {
-Obj _3518051_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj x = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_EQ(Nil, _3518054_37);
-if (True == _3518055_37) {
-Obj _3518056_37 = primIsSymbol(x);
-if (True == _3518056_37) {
-R[1] = x;
+Obj v_2316721_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2318052_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2318052_25) {
+Obj v_2318053_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2318054_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318053_25);
+if (True == v_2318054_25) {
+Obj v_2318055_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318056_25 = PRIM_ISCONS(v_2318055_25);
+if (True == v_2318056_25) {
+Obj v_2318057_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318058_25 = PRIM_CAR(v_2318057_25);
+Obj v_x = v_2318058_25;
+Obj v_2318059_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318060_25 = PRIM_CDR(v_2318059_25);
+Obj v_2318061_25 = PRIM_EQ(Nil, v_2318060_25);
+if (True == v_2318061_25) {
+Obj v_2318062_25 = primIsSymbol(v_x);
+if (True == v_2318062_25) {
+R[1] = v_x;
 saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = x;
+R[1] = v_x;
 saveCont(co, clofun93, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, v_2316721_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, v_2316721_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, v_2316721_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, v_2316721_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518059_37= co->res;
+Obj v_2318065_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518058_37= co->res;
+Obj v_2318064_25= co->res;
 saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518058_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_2318064_25);
 return;
 }
 case 3:
 {
-Obj _3518057_37= co->res;
-Obj x = R[1];
+Obj v_2318063_25= co->res;
+Obj v_x = R[1];
 saveCont(co, clofun93, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518062_37= co->res;
+Obj v_2318068_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518061_37= co->res;
-Obj x = R[1];
+Obj v_2318067_25= co->res;
+Obj v_x = R[1];
 saveCont(co, clofun93, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_x);
 return;
 }
 case 6:
 {
-Obj _3518066_37= co->res;
+Obj v_2318072_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518065_37= co->res;
+Obj v_2318071_25= co->res;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518065_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318071_25);
 return;
 }
 case 8:
 {
-Obj _3518064_37= co->res;
-Obj x = R[1];
+Obj v_2318070_25= co->res;
+Obj v_x = R[1];
 saveCont(co, clofun93, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v_x);
 return;
 }
 case 9:
 {
-Obj _3518060_37= co->res;
-Obj x = R[1];
-if (True == _3518060_37) {
-R[1] = x;
+Obj v_2318066_25= co->res;
+Obj v_x = R[1];
+if (True == v_2318066_25) {
+R[1] = v_x;
 saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518063_37 = primIsString(x);
-if (True == _3518063_37) {
-R[1] = x;
+Obj v_2318069_25 = primIsString(v_x);
+if (True == v_2318069_25) {
+R[1] = v_x;
 saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518067_37 = PRIM_EQ(x, Nil);
-if (True == _3518067_37) {
+Obj v_2318073_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2318073_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518068_37 = PRIM_EQ(x, True);
-if (True == _3518068_37) {
+Obj v_2318074_25 = PRIM_EQ(v_x, True);
+if (True == v_2318074_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518069_37 = PRIM_EQ(x, False);
-if (True == _3518069_37) {
+Obj v_2318075_25 = PRIM_EQ(v_x, False);
+if (True == v_2318075_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -2985,171 +2994,171 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516716_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518011_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518011_37) {
-Obj _3518012_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518013_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518012_37);
-if (True == _3518013_37) {
-Obj _3518014_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518015_37 = PRIM_ISCONS(_3518014_37);
-if (True == _3518015_37) {
-Obj _3518016_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518017_37 = PRIM_CAR(_3518016_37);
-Obj a = _3518017_37;
-Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518019_37 = PRIM_CDR(_3518018_37);
-Obj _3518020_37 = PRIM_ISCONS(_3518019_37);
-if (True == _3518020_37) {
-Obj _3518021_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518022_37 = PRIM_CDR(_3518021_37);
-Obj _3518023_37 = PRIM_CAR(_3518022_37);
-Obj b = _3518023_37;
-Obj _3518024_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518025_37 = PRIM_CDR(_3518024_37);
-Obj _3518026_37 = PRIM_CDR(_3518025_37);
-Obj _3518027_37 = PRIM_ISCONS(_3518026_37);
-if (True == _3518027_37) {
-Obj _3518028_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518029_37 = PRIM_CDR(_3518028_37);
-Obj _3518030_37 = PRIM_CDR(_3518029_37);
-Obj _3518031_37 = PRIM_CAR(_3518030_37);
-Obj c = _3518031_37;
-Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3518034_37 = PRIM_CDR(_3518033_37);
-Obj _3518035_37 = PRIM_CDR(_3518034_37);
-Obj _3518036_37 = PRIM_EQ(Nil, _3518035_37);
-if (True == _3518036_37) {
-R[1] = b;
-R[2] = a;
-R[3] = c;
+Obj v_2316722_25 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2318017_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318017_25) {
+Obj v_2318018_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318019_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2318018_25);
+if (True == v_2318019_25) {
+Obj v_2318020_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318021_25 = PRIM_ISCONS(v_2318020_25);
+if (True == v_2318021_25) {
+Obj v_2318022_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318023_25 = PRIM_CAR(v_2318022_25);
+Obj v_a = v_2318023_25;
+Obj v_2318024_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318025_25 = PRIM_CDR(v_2318024_25);
+Obj v_2318026_25 = PRIM_ISCONS(v_2318025_25);
+if (True == v_2318026_25) {
+Obj v_2318027_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318028_25 = PRIM_CDR(v_2318027_25);
+Obj v_2318029_25 = PRIM_CAR(v_2318028_25);
+Obj v_b = v_2318029_25;
+Obj v_2318030_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318031_25 = PRIM_CDR(v_2318030_25);
+Obj v_2318032_25 = PRIM_CDR(v_2318031_25);
+Obj v_2318033_25 = PRIM_ISCONS(v_2318032_25);
+if (True == v_2318033_25) {
+Obj v_2318034_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318035_25 = PRIM_CDR(v_2318034_25);
+Obj v_2318036_25 = PRIM_CDR(v_2318035_25);
+Obj v_2318037_25 = PRIM_CAR(v_2318036_25);
+Obj v_c = v_2318037_25;
+Obj v_2318038_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318039_25 = PRIM_CDR(v_2318038_25);
+Obj v_2318040_25 = PRIM_CDR(v_2318039_25);
+Obj v_2318041_25 = PRIM_CDR(v_2318040_25);
+Obj v_2318042_25 = PRIM_EQ(Nil, v_2318041_25);
+if (True == v_2318042_25) {
+R[1] = v_b;
+R[2] = v_a;
+R[3] = v_c;
 saveCont(co, clofun92, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, v_2316722_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, v_2316722_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, v_2316722_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, v_2316722_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, v_2316722_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, v_2316722_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518044_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-Obj _3518045_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj v_2318050_25= co->res;
+Obj v_a = R[1];
+Obj v_c = R[2];
+Obj v_2318051_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518044_37, c, _3518045_37);
+coraCall2(co, v_2318050_25, v_c, v_2318051_25);
 return;
 }
 case 2:
 {
-Obj _3518043_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
+Obj v_2318049_25= co->res;
+Obj v_a = R[1];
+Obj v_c = R[2];
+R[1] = v_a;
+R[2] = v_c;
 saveCont(co, clofun92, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518042_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
+Obj v_2318048_25= co->res;
+Obj v_a = R[1];
+Obj v_c = R[2];
+R[1] = v_a;
+R[2] = v_c;
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518041_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = c;
+Obj v_2318047_25= co->res;
+Obj v_b = R[1];
+Obj v_a = R[2];
+Obj v_c = R[3];
+R[1] = v_a;
+R[2] = v_c;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, _3518041_37, b, closureRef(R[0], 5));
+coraCall2(co, v_2318047_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518040_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
+Obj v_2318046_25= co->res;
+Obj v_b = R[1];
+Obj v_a = R[2];
+Obj v_c = R[3];
+R[1] = v_b;
+R[2] = v_a;
+R[3] = v_c;
 saveCont(co, clofun92, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518039_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
+Obj v_2318045_25= co->res;
+Obj v_b = R[1];
+Obj v_a = R[2];
+Obj v_c = R[3];
+R[1] = v_b;
+R[2] = v_a;
+R[3] = v_c;
 saveCont(co, clofun92, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518038_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
+Obj v_2318044_25= co->res;
+Obj v_b = R[1];
+Obj v_a = R[2];
+Obj v_c = R[3];
+R[1] = v_b;
+R[2] = v_a;
+R[3] = v_c;
 saveCont(co, clofun92, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), a);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_a);
 return;
 }
 case 8:
 {
-Obj _3518037_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
+Obj v_2318043_25= co->res;
+Obj v_b = R[1];
+Obj v_a = R[2];
+Obj v_c = R[3];
+R[1] = v_b;
+R[2] = v_a;
+R[3] = v_c;
 saveCont(co, clofun92, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3161,153 +3170,153 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516717_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517981_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517981_37) {
-Obj _3517982_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517983_37 = PRIM_ISCONS(_3517982_37);
-if (True == _3517983_37) {
-Obj _3517984_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517985_37 = PRIM_CAR(_3517984_37);
-Obj _3517986_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517985_37);
-if (True == _3517986_37) {
-Obj _3517987_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517988_37 = PRIM_CDR(_3517987_37);
-Obj _3517989_37 = PRIM_ISCONS(_3517988_37);
-if (True == _3517989_37) {
-Obj _3517990_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517991_37 = PRIM_CDR(_3517990_37);
-Obj _3517992_37 = PRIM_CAR(_3517991_37);
-Obj f = _3517992_37;
-Obj _3517993_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517994_37 = PRIM_CDR(_3517993_37);
-Obj _3517995_37 = PRIM_CDR(_3517994_37);
-Obj _3517996_37 = PRIM_EQ(Nil, _3517995_37);
-if (True == _3517996_37) {
-Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3517997_37;
-R[1] = f;
-R[2] = args;
+Obj v_2316723_25 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317987_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317987_25) {
+Obj v_2317988_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317989_25 = PRIM_ISCONS(v_2317988_25);
+if (True == v_2317989_25) {
+Obj v_2317990_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317991_25 = PRIM_CAR(v_2317990_25);
+Obj v_2317992_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317991_25);
+if (True == v_2317992_25) {
+Obj v_2317993_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317994_25 = PRIM_CDR(v_2317993_25);
+Obj v_2317995_25 = PRIM_ISCONS(v_2317994_25);
+if (True == v_2317995_25) {
+Obj v_2317996_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317997_25 = PRIM_CDR(v_2317996_25);
+Obj v_2317998_25 = PRIM_CAR(v_2317997_25);
+Obj v_f = v_2317998_25;
+Obj v_2317999_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318000_25 = PRIM_CDR(v_2317999_25);
+Obj v_2318001_25 = PRIM_CDR(v_2318000_25);
+Obj v_2318002_25 = PRIM_EQ(Nil, v_2318001_25);
+if (True == v_2318002_25) {
+Obj v_2318003_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2318003_25;
+R[1] = v_f;
+R[2] = v_args;
 saveCont(co, clofun91, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, v_2316723_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, v_2316723_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, v_2316723_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, v_2316723_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, v_2316723_25);
 return;
 }
 }
 case 1:
 {
-Obj _3518002_37= co->res;
+Obj v_2318008_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518001_37= co->res;
-Obj args = R[1];
+Obj v_2318007_25= co->res;
+Obj v_args = R[1];
 saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518005_37= co->res;
+Obj v_2318011_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518004_37= co->res;
-Obj args = R[1];
+Obj v_2318010_25= co->res;
+Obj v_args = R[1];
 saveCont(co, clofun91, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518008_37= co->res;
+Obj v_2318014_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518007_37= co->res;
-Obj args = R[1];
+Obj v_2318013_25= co->res;
+Obj v_args = R[1];
 saveCont(co, clofun91, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518010_37= co->res;
+Obj v_2318016_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518009_37= co->res;
-Obj args = R[1];
+Obj v_2318015_25= co->res;
+Obj v_args = R[1];
 saveCont(co, clofun91, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517999_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3518000_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518000_37) {
-R[1] = args;
+Obj v_2318005_25= co->res;
+Obj v_f = R[1];
+Obj v_args = R[2];
+Obj v_2318006_25 = PRIM_EQ(v_f, getBinding(co, packageID, 121).name);
+if (True == v_2318006_25) {
+R[1] = v_args;
 saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518003_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518003_37) {
-R[1] = args;
+Obj v_2318009_25 = PRIM_EQ(v_f, getBinding(co, packageID, 109).name);
+if (True == v_2318009_25) {
+R[1] = v_args;
 saveCont(co, clofun91, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518006_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518006_37) {
-R[1] = args;
+Obj v_2318012_25 = PRIM_EQ(v_f, getBinding(co, packageID, 118).name);
+if (True == v_2318012_25) {
+R[1] = v_args;
 saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = args;
+R[1] = v_args;
 saveCont(co, clofun91, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3317,13 +3326,13 @@ return;
 }
 case 10:
 {
-Obj _3517998_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-R[1] = f;
-R[2] = args;
+Obj v_2318004_25= co->res;
+Obj v_f = R[1];
+Obj v_args = R[2];
+R[1] = v_f;
+R[2] = v_args;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3517998_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318004_25);
 return;
 }
 }
@@ -3333,165 +3342,165 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516718_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517946_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517946_37) {
-Obj _3517947_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517948_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517947_37);
-if (True == _3517948_37) {
-Obj _3517949_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517950_37 = PRIM_ISCONS(_3517949_37);
-if (True == _3517950_37) {
-Obj _3517951_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517952_37 = PRIM_CAR(_3517951_37);
-Obj a = _3517952_37;
-Obj _3517953_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517954_37 = PRIM_CDR(_3517953_37);
-Obj _3517955_37 = PRIM_ISCONS(_3517954_37);
-if (True == _3517955_37) {
-Obj _3517956_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517957_37 = PRIM_CDR(_3517956_37);
-Obj _3517958_37 = PRIM_CAR(_3517957_37);
-Obj b = _3517958_37;
-Obj _3517959_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517960_37 = PRIM_CDR(_3517959_37);
-Obj _3517961_37 = PRIM_CDR(_3517960_37);
-Obj _3517962_37 = PRIM_ISCONS(_3517961_37);
-if (True == _3517962_37) {
-Obj _3517963_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517964_37 = PRIM_CDR(_3517963_37);
-Obj _3517965_37 = PRIM_CDR(_3517964_37);
-Obj _3517966_37 = PRIM_CAR(_3517965_37);
-Obj c = _3517966_37;
-Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517968_37 = PRIM_CDR(_3517967_37);
-Obj _3517969_37 = PRIM_CDR(_3517968_37);
-Obj _3517970_37 = PRIM_CDR(_3517969_37);
-Obj _3517971_37 = PRIM_EQ(Nil, _3517970_37);
-if (True == _3517971_37) {
-R[1] = a;
-R[2] = b;
-R[3] = c;
+Obj v_2316724_25 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317952_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317952_25) {
+Obj v_2317953_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317954_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317953_25);
+if (True == v_2317954_25) {
+Obj v_2317955_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317956_25 = PRIM_ISCONS(v_2317955_25);
+if (True == v_2317956_25) {
+Obj v_2317957_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317958_25 = PRIM_CAR(v_2317957_25);
+Obj v_a = v_2317958_25;
+Obj v_2317959_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317960_25 = PRIM_CDR(v_2317959_25);
+Obj v_2317961_25 = PRIM_ISCONS(v_2317960_25);
+if (True == v_2317961_25) {
+Obj v_2317962_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317963_25 = PRIM_CDR(v_2317962_25);
+Obj v_2317964_25 = PRIM_CAR(v_2317963_25);
+Obj v_b = v_2317964_25;
+Obj v_2317965_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317966_25 = PRIM_CDR(v_2317965_25);
+Obj v_2317967_25 = PRIM_CDR(v_2317966_25);
+Obj v_2317968_25 = PRIM_ISCONS(v_2317967_25);
+if (True == v_2317968_25) {
+Obj v_2317969_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317970_25 = PRIM_CDR(v_2317969_25);
+Obj v_2317971_25 = PRIM_CDR(v_2317970_25);
+Obj v_2317972_25 = PRIM_CAR(v_2317971_25);
+Obj v_c = v_2317972_25;
+Obj v_2317973_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317974_25 = PRIM_CDR(v_2317973_25);
+Obj v_2317975_25 = PRIM_CDR(v_2317974_25);
+Obj v_2317976_25 = PRIM_CDR(v_2317975_25);
+Obj v_2317977_25 = PRIM_EQ(Nil, v_2317976_25);
+if (True == v_2317977_25) {
+R[1] = v_a;
+R[2] = v_b;
+R[3] = v_c;
 saveCont(co, clofun90, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v_2316724_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v_2316724_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v_2316724_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v_2316724_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v_2316724_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v_2316724_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517980_37= co->res;
+Obj v_2317986_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3517979_37= co->res;
-Obj c = R[1];
+Obj v_2317985_25= co->res;
+Obj v_c = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, _3517979_37, c, closureRef(R[0], 4));
+coraCall2(co, v_2317985_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517978_37= co->res;
-Obj c = R[1];
-R[1] = c;
+Obj v_2317984_25= co->res;
+Obj v_c = R[1];
+R[1] = v_c;
 saveCont(co, clofun90, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517977_37= co->res;
-Obj c = R[1];
-R[1] = c;
+Obj v_2317983_25= co->res;
+Obj v_c = R[1];
+R[1] = v_c;
 saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3517976_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = c;
+Obj v_2317982_25= co->res;
+Obj v_b = R[1];
+Obj v_c = R[2];
+R[1] = v_c;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, _3517976_37, b, closureRef(R[0], 4));
+coraCall2(co, v_2317982_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3517975_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
+Obj v_2317981_25= co->res;
+Obj v_b = R[1];
+Obj v_c = R[2];
+R[1] = v_b;
+R[2] = v_c;
 saveCont(co, clofun90, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3517974_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
+Obj v_2317980_25= co->res;
+Obj v_b = R[1];
+Obj v_c = R[2];
+R[1] = v_b;
+R[2] = v_c;
 saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3517973_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = c;
+Obj v_2317979_25= co->res;
+Obj v_a = R[1];
+Obj v_b = R[2];
+Obj v_c = R[3];
+R[1] = v_b;
+R[2] = v_c;
 saveCont(co, clofun90, 7, R);
-coraCall2(co, _3517973_37, a, closureRef(R[0], 4));
+coraCall2(co, v_2317979_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3517972_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = b;
-R[3] = c;
+Obj v_2317978_25= co->res;
+Obj v_a = R[1];
+Obj v_b = R[2];
+Obj v_c = R[3];
+R[1] = v_a;
+R[2] = v_b;
+R[3] = v_c;
 saveCont(co, clofun90, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3503,97 +3512,97 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516719_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517908_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517908_37) {
-Obj _3517909_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517910_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517909_37);
-if (True == _3517910_37) {
-Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517912_37 = PRIM_ISCONS(_3517911_37);
-if (True == _3517912_37) {
-Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517914_37 = PRIM_CAR(_3517913_37);
-Obj label = _3517914_37;
-Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517916_37 = PRIM_CDR(_3517915_37);
-Obj _3517917_37 = PRIM_ISCONS(_3517916_37);
-if (True == _3517917_37) {
-Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517919_37 = PRIM_CDR(_3517918_37);
-Obj _3517920_37 = PRIM_CAR(_3517919_37);
-Obj nargs = _3517920_37;
-Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517922_37 = PRIM_CDR(_3517921_37);
-Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_ISCONS(_3517923_37);
-if (True == _3517924_37) {
-Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517926_37 = PRIM_CDR(_3517925_37);
-Obj _3517927_37 = PRIM_CDR(_3517926_37);
-Obj _3517928_37 = PRIM_CAR(_3517927_37);
-Obj nframe = _3517928_37;
-Obj _3517929_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517930_37 = PRIM_CDR(_3517929_37);
-Obj _3517931_37 = PRIM_CDR(_3517930_37);
-Obj _3517932_37 = PRIM_CDR(_3517931_37);
-Obj frees = _3517932_37;
-R[1] = nframe;
-R[2] = label;
-R[3] = nargs;
-R[4] = frees;
+Obj v_2316725_25 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2317914_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317914_25) {
+Obj v_2317915_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317916_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317915_25);
+if (True == v_2317916_25) {
+Obj v_2317917_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317918_25 = PRIM_ISCONS(v_2317917_25);
+if (True == v_2317918_25) {
+Obj v_2317919_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317920_25 = PRIM_CAR(v_2317919_25);
+Obj v_label = v_2317920_25;
+Obj v_2317921_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317922_25 = PRIM_CDR(v_2317921_25);
+Obj v_2317923_25 = PRIM_ISCONS(v_2317922_25);
+if (True == v_2317923_25) {
+Obj v_2317924_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317925_25 = PRIM_CDR(v_2317924_25);
+Obj v_2317926_25 = PRIM_CAR(v_2317925_25);
+Obj v_nargs = v_2317926_25;
+Obj v_2317927_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317928_25 = PRIM_CDR(v_2317927_25);
+Obj v_2317929_25 = PRIM_CDR(v_2317928_25);
+Obj v_2317930_25 = PRIM_ISCONS(v_2317929_25);
+if (True == v_2317930_25) {
+Obj v_2317931_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317932_25 = PRIM_CDR(v_2317931_25);
+Obj v_2317933_25 = PRIM_CDR(v_2317932_25);
+Obj v_2317934_25 = PRIM_CAR(v_2317933_25);
+Obj v_nframe = v_2317934_25;
+Obj v_2317935_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317936_25 = PRIM_CDR(v_2317935_25);
+Obj v_2317937_25 = PRIM_CDR(v_2317936_25);
+Obj v_2317938_25 = PRIM_CDR(v_2317937_25);
+Obj v_frees = v_2317938_25;
+R[1] = v_nframe;
+R[2] = v_label;
+R[3] = v_nargs;
+R[4] = v_frees;
 saveCont(co, clofun89, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, v_2316725_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, v_2316725_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, v_2316725_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, v_2316725_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, v_2316725_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517945_37= co->res;
+Obj v_2317951_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3517944_37= co->res;
-Obj frees = R[1];
+Obj v_2317950_25= co->res;
+Obj v_frees = R[1];
 saveCont(co, clofun89, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3517942_37= co->res;
-Obj frees = R[1];
-Obj _3517943_37 = primNot(_3517942_37);
-if (True == _3517943_37) {
-R[1] = frees;
+Obj v_2317948_25= co->res;
+Obj v_frees = R[1];
+Obj v_2317949_25 = primNot(v_2317948_25);
+if (True == v_2317949_25) {
+R[1] = v_frees;
 saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3606,98 +3615,98 @@ return;
 }
 case 4:
 {
-Obj _3517941_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
+Obj v_2317947_25= co->res;
+Obj v_frees = R[1];
+R[1] = v_frees;
 saveCont(co, clofun89, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), frees);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_frees);
 return;
 }
 case 5:
 {
-Obj _3517940_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
+Obj v_2317946_25= co->res;
+Obj v_frees = R[1];
+R[1] = v_frees;
 saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517940_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_2317946_25);
 return;
 }
 case 6:
 {
-Obj _3517939_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
+Obj v_2317945_25= co->res;
+Obj v_frees = R[1];
+R[1] = v_frees;
 saveCont(co, clofun89, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), frees);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_frees);
 return;
 }
 case 7:
 {
-Obj _3517938_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
+Obj v_2317944_25= co->res;
+Obj v_frees = R[1];
+R[1] = v_frees;
 saveCont(co, clofun89, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3517937_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = frees;
+Obj v_2317943_25= co->res;
+Obj v_nargs = R[1];
+Obj v_frees = R[2];
+R[1] = v_frees;
 saveCont(co, clofun89, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 9:
 {
-Obj _3517936_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = nargs;
-R[2] = frees;
+Obj v_2317942_25= co->res;
+Obj v_nargs = R[1];
+Obj v_frees = R[2];
+R[1] = v_nargs;
+R[2] = v_frees;
 saveCont(co, clofun89, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3517935_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = nargs;
-R[2] = frees;
+Obj v_2317941_25= co->res;
+Obj v_label = R[1];
+Obj v_nargs = R[2];
+Obj v_frees = R[3];
+R[1] = v_nargs;
+R[2] = v_frees;
 saveCont(co, clofun89, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v_label);
 return;
 }
 case 11:
 {
-Obj _3517934_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
+Obj v_2317940_25= co->res;
+Obj v_label = R[1];
+Obj v_nargs = R[2];
+Obj v_frees = R[3];
+R[1] = v_label;
+R[2] = v_nargs;
+R[3] = v_frees;
 saveCont(co, clofun89, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3517933_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj nargs = R[3];
-Obj frees = R[4];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
+Obj v_2317939_25= co->res;
+Obj v_nframe = R[1];
+Obj v_label = R[2];
+Obj v_nargs = R[3];
+Obj v_frees = R[4];
+R[1] = v_label;
+R[2] = v_nargs;
+R[3] = v_frees;
 saveCont(co, clofun89, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nframe);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nframe);
 return;
 }
 }
@@ -3707,96 +3716,96 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516720_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517887_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517887_37) {
-Obj _3517888_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517889_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517888_37);
-if (True == _3517889_37) {
-Obj _3517890_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517891_37 = PRIM_ISCONS(_3517890_37);
-if (True == _3517891_37) {
-Obj _3517892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517893_37 = PRIM_CAR(_3517892_37);
-Obj a = _3517893_37;
-Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517895_37 = PRIM_CDR(_3517894_37);
-Obj _3517896_37 = PRIM_ISCONS(_3517895_37);
-if (True == _3517896_37) {
-Obj _3517897_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517898_37 = PRIM_CDR(_3517897_37);
-Obj _3517899_37 = PRIM_CAR(_3517898_37);
-Obj b = _3517899_37;
-Obj _3517900_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517901_37 = PRIM_CDR(_3517900_37);
-Obj _3517902_37 = PRIM_CDR(_3517901_37);
-Obj _3517903_37 = PRIM_EQ(Nil, _3517902_37);
-if (True == _3517903_37) {
-R[1] = a;
-R[2] = b;
+Obj v_2316726_25 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2317893_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317893_25) {
+Obj v_2317894_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317895_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317894_25);
+if (True == v_2317895_25) {
+Obj v_2317896_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317897_25 = PRIM_ISCONS(v_2317896_25);
+if (True == v_2317897_25) {
+Obj v_2317898_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317899_25 = PRIM_CAR(v_2317898_25);
+Obj v_a = v_2317899_25;
+Obj v_2317900_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317901_25 = PRIM_CDR(v_2317900_25);
+Obj v_2317902_25 = PRIM_ISCONS(v_2317901_25);
+if (True == v_2317902_25) {
+Obj v_2317903_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317904_25 = PRIM_CDR(v_2317903_25);
+Obj v_2317905_25 = PRIM_CAR(v_2317904_25);
+Obj v_b = v_2317905_25;
+Obj v_2317906_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317907_25 = PRIM_CDR(v_2317906_25);
+Obj v_2317908_25 = PRIM_CDR(v_2317907_25);
+Obj v_2317909_25 = PRIM_EQ(Nil, v_2317908_25);
+if (True == v_2317909_25) {
+R[1] = v_a;
+R[2] = v_b;
 saveCont(co, clofun88, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, v_2316726_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, v_2316726_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, v_2316726_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, v_2316726_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, v_2316726_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517907_37= co->res;
-Obj b = R[1];
+Obj v_2317913_25= co->res;
+Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517907_37, b, closureRef(R[0], 5));
+coraCall2(co, v_2317913_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517906_37= co->res;
-Obj b = R[1];
-R[1] = b;
+Obj v_2317912_25= co->res;
+Obj v_b = R[1];
+R[1] = v_b;
 saveCont(co, clofun88, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517905_37= co->res;
-Obj b = R[1];
-R[1] = b;
+Obj v_2317911_25= co->res;
+Obj v_b = R[1];
+R[1] = v_b;
 saveCont(co, clofun88, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3517904_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-R[1] = b;
+Obj v_2317910_25= co->res;
+Obj v_a = R[1];
+Obj v_b = R[2];
+R[1] = v_b;
 saveCont(co, clofun88, 3, R);
-coraCall2(co, _3517904_37, a, closureRef(R[0], 5));
+coraCall2(co, v_2317910_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3806,74 +3815,74 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516721_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517873_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517873_37) {
-Obj _3517874_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517875_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517874_37);
-if (True == _3517875_37) {
-Obj _3517876_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517877_37 = PRIM_ISCONS(_3517876_37);
-if (True == _3517877_37) {
-Obj _3517878_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517879_37 = PRIM_CAR(_3517878_37);
-Obj x = _3517879_37;
-Obj _3517880_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517881_37 = PRIM_CDR(_3517880_37);
-Obj _3517882_37 = PRIM_EQ(Nil, _3517881_37);
-if (True == _3517882_37) {
-R[1] = x;
+Obj v_2316727_25 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317879_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317879_25) {
+Obj v_2317880_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317881_25 = PRIM_EQ(getBinding(co, packageID, 72).name, v_2317880_25);
+if (True == v_2317881_25) {
+Obj v_2317882_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317883_25 = PRIM_ISCONS(v_2317882_25);
+if (True == v_2317883_25) {
+Obj v_2317884_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317885_25 = PRIM_CAR(v_2317884_25);
+Obj v_x = v_2317885_25;
+Obj v_2317886_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317887_25 = PRIM_CDR(v_2317886_25);
+Obj v_2317888_25 = PRIM_EQ(Nil, v_2317887_25);
+if (True == v_2317888_25) {
+R[1] = v_x;
 saveCont(co, clofun87, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v_2316727_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v_2316727_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v_2316727_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v_2316727_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517886_37= co->res;
+Obj v_2317892_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517885_37= co->res;
+Obj v_2317891_25= co->res;
 saveCont(co, clofun87, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517884_37= co->res;
-Obj x = R[1];
+Obj v_2317890_25= co->res;
+Obj v_x = R[1];
 saveCont(co, clofun87, 2, R);
-coraCall2(co, _3517884_37, x, closureRef(R[0], 4));
+coraCall2(co, v_2317890_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517883_37= co->res;
-Obj x = R[1];
-R[1] = x;
+Obj v_2317889_25= co->res;
+Obj v_x = R[1];
+R[1] = v_x;
 saveCont(co, clofun87, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3885,67 +3894,67 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517860_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517860_37) {
-Obj _3517861_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517862_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517861_37);
-if (True == _3517862_37) {
-Obj _3517863_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517864_37 = PRIM_ISCONS(_3517863_37);
-if (True == _3517864_37) {
-Obj _3517865_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517866_37 = PRIM_CAR(_3517865_37);
-Obj exp = _3517866_37;
-Obj _3517867_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517868_37 = PRIM_CDR(_3517867_37);
-Obj _3517869_37 = PRIM_EQ(Nil, _3517868_37);
-if (True == _3517869_37) {
-R[1] = exp;
+Obj v_2316728_25 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317866_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317866_25) {
+Obj v_2317867_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317868_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317867_25);
+if (True == v_2317868_25) {
+Obj v_2317869_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317870_25 = PRIM_ISCONS(v_2317869_25);
+if (True == v_2317870_25) {
+Obj v_2317871_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317872_25 = PRIM_CAR(v_2317871_25);
+Obj v_exp = v_2317872_25;
+Obj v_2317873_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317874_25 = PRIM_CDR(v_2317873_25);
+Obj v_2317875_25 = PRIM_EQ(Nil, v_2317874_25);
+if (True == v_2317875_25) {
+R[1] = v_exp;
 saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v_2316728_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v_2316728_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v_2316728_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v_2316728_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517872_37= co->res;
+Obj v_2317878_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517871_37= co->res;
-Obj exp = R[1];
+Obj v_2317877_25= co->res;
+Obj v_exp = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517871_37, exp, closureRef(R[0], 4));
+coraCall2(co, v_2317877_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517870_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v_2317876_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun86, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3957,129 +3966,129 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517836_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517836_37) {
-Obj _3517837_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517838_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517837_37);
-if (True == _3517838_37) {
-Obj _3517839_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517840_37 = PRIM_ISCONS(_3517839_37);
-if (True == _3517840_37) {
-Obj _3517841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517842_37 = PRIM_CAR(_3517841_37);
-Obj exp = _3517842_37;
-Obj _3517843_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517844_37 = PRIM_CDR(_3517843_37);
-Obj _3517845_37 = PRIM_ISCONS(_3517844_37);
-if (True == _3517845_37) {
-Obj _3517846_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517847_37 = PRIM_CDR(_3517846_37);
-Obj _3517848_37 = PRIM_CAR(_3517847_37);
-Obj label = _3517848_37;
-Obj _3517849_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517850_37 = PRIM_CDR(_3517849_37);
-Obj _3517851_37 = PRIM_CDR(_3517850_37);
-Obj fvs = _3517851_37;
-R[1] = label;
-R[2] = exp;
+Obj v_2316729_25 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317842_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317842_25) {
+Obj v_2317843_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317844_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317843_25);
+if (True == v_2317844_25) {
+Obj v_2317845_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317846_25 = PRIM_ISCONS(v_2317845_25);
+if (True == v_2317846_25) {
+Obj v_2317847_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317848_25 = PRIM_CAR(v_2317847_25);
+Obj v_exp = v_2317848_25;
+Obj v_2317849_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317850_25 = PRIM_CDR(v_2317849_25);
+Obj v_2317851_25 = PRIM_ISCONS(v_2317850_25);
+if (True == v_2317851_25) {
+Obj v_2317852_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317853_25 = PRIM_CDR(v_2317852_25);
+Obj v_2317854_25 = PRIM_CAR(v_2317853_25);
+Obj v_label = v_2317854_25;
+Obj v_2317855_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317856_25 = PRIM_CDR(v_2317855_25);
+Obj v_2317857_25 = PRIM_CDR(v_2317856_25);
+Obj v_fvs = v_2317857_25;
+R[1] = v_label;
+R[2] = v_exp;
 saveCont(co, clofun85, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), fvs};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v_2316729_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v_2316729_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v_2316729_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v_2316729_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517859_37= co->res;
+Obj v_2317865_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517858_37= co->res;
-Obj exp = R[1];
+Obj v_2317864_25= co->res;
+Obj v_exp = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, _3517858_37, exp, closureRef(R[0], 4));
+coraCall2(co, v_2317864_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517857_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v_2317863_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun85, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517856_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v_2317862_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun85, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3517855_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = exp;
+Obj v_2317861_25= co->res;
+Obj v_label = R[1];
+Obj v_exp = R[2];
+R[1] = v_exp;
 saveCont(co, clofun85, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_label);
 return;
 }
 case 6:
 {
-Obj _3517854_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
+Obj v_2317860_25= co->res;
+Obj v_label = R[1];
+Obj v_exp = R[2];
+R[1] = v_label;
+R[2] = v_exp;
 saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3517853_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
+Obj v_2317859_25= co->res;
+Obj v_label = R[1];
+Obj v_exp = R[2];
+R[1] = v_label;
+R[2] = v_exp;
 saveCont(co, clofun85, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3517852_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
+Obj v_2317858_25= co->res;
+Obj v_label = R[1];
+Obj v_exp = R[2];
+R[1] = v_label;
+R[2] = v_exp;
 saveCont(co, clofun85, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4091,16 +4100,16 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517813_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517813_37) {
-Obj _3517814_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517814_37;
-Obj _3517815_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517815_37;
-R[1] = f;
-R[2] = args;
+Obj v_2317819_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317819_25) {
+Obj v_2317820_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317820_25;
+Obj v_2317821_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317821_25;
+R[1] = v_f;
+R[2] = v_args;
 saveCont(co, clofun84, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
 return;
 } else {
 co->ctx.sp = R;
@@ -4110,134 +4119,134 @@ return;
 }
 case 1:
 {
-Obj _3517827_37= co->res;
+Obj v_2317833_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517826_37= co->res;
-Obj nargs = R[1];
+Obj v_2317832_25= co->res;
+Obj v_nargs = R[1];
 saveCont(co, clofun84, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 3:
 {
-Obj _3517825_37= co->res;
-Obj nargs = R[1];
-R[1] = nargs;
+Obj v_2317831_25= co->res;
+Obj v_nargs = R[1];
+R[1] = v_nargs;
 saveCont(co, clofun84, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3517824_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = nargs;
+Obj v_2317830_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+R[1] = v_nargs;
 saveCont(co, clofun84, 3, R);
-coraCall2(co, _3517824_37, f, closureRef(R[0], 4));
+coraCall2(co, v_2317830_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517823_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
+Obj v_2317829_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+R[1] = v_f;
+R[2] = v_nargs;
 saveCont(co, clofun84, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3517822_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
+Obj v_2317828_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+R[1] = v_f;
+R[2] = v_nargs;
 saveCont(co, clofun84, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3517821_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
+Obj v_2317827_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+R[1] = v_f;
+R[2] = v_nargs;
 saveCont(co, clofun84, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3517820_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = f;
-R[2] = nargs;
+Obj v_2317826_25= co->res;
+Obj v_args = R[1];
+Obj v_f = R[2];
+Obj v_nargs = R[3];
+R[1] = v_f;
+R[2] = v_nargs;
 saveCont(co, clofun84, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517819_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
+Obj v_2317825_25= co->res;
+Obj v_args = R[1];
+Obj v_f = R[2];
+Obj v_nargs = R[3];
+R[1] = v_args;
+R[2] = v_f;
+R[3] = v_nargs;
 saveCont(co, clofun84, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3517818_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
+Obj v_2317824_25= co->res;
+Obj v_args = R[1];
+Obj v_f = R[2];
+Obj v_nargs = R[3];
+R[1] = v_args;
+R[2] = v_f;
+R[3] = v_nargs;
 saveCont(co, clofun84, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 11:
 {
-Obj _3517835_37= co->res;
+Obj v_2317841_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517834_37= co->res;
-Obj args = R[1];
+Obj v_2317840_25= co->res;
+Obj v_args = R[1];
 saveCont(co, clofun84, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3517832_37= co->res;
-Obj nargs = R[1];
-Obj args = R[2];
-Obj _3517833_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517833_37) {
-R[1] = args;
+Obj v_2317838_25= co->res;
+Obj v_nargs = R[1];
+Obj v_args = R[2];
+Obj v_2317839_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2317839_25) {
+R[1] = v_args;
 saveCont(co, clofun84, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4250,73 +4259,73 @@ return;
 }
 case 14:
 {
-Obj _3517831_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = nargs;
-R[2] = args;
+Obj v_2317837_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+Obj v_args = R[3];
+R[1] = v_nargs;
+R[2] = v_args;
 saveCont(co, clofun84, 13, R);
-coraCall2(co, _3517831_37, f, closureRef(R[0], 4));
+coraCall2(co, v_2317837_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517830_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
+Obj v_2317836_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+Obj v_args = R[3];
+R[1] = v_f;
+R[2] = v_nargs;
+R[3] = v_args;
 saveCont(co, clofun84, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3517829_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
+Obj v_2317835_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+Obj v_args = R[3];
+R[1] = v_f;
+R[2] = v_nargs;
+R[3] = v_args;
 saveCont(co, clofun84, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3517828_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
+Obj v_2317834_25= co->res;
+Obj v_f = R[1];
+Obj v_nargs = R[2];
+Obj v_args = R[3];
+R[1] = v_f;
+R[2] = v_nargs;
+R[3] = v_args;
 saveCont(co, clofun84, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 18:
 {
-Obj _3517816_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj nargs = _3517816_37;
-Obj _3517817_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517817_37) {
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
+Obj v_2317822_25= co->res;
+Obj v_f = R[1];
+Obj v_args = R[2];
+Obj v_nargs = v_2317822_25;
+Obj v_2317823_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2317823_25) {
+R[1] = v_args;
+R[2] = v_f;
+R[3] = v_nargs;
 saveCont(co, clofun84, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
+R[1] = v_f;
+R[2] = v_nargs;
+R[3] = v_args;
 saveCont(co, clofun84, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4329,13 +4338,13 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4345,57 +4354,57 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun82, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3517808_37= co->res;
-Obj acc = R[1];
-Obj _3517809_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517809_37);
+Obj v_2317814_25= co->res;
+Obj v_acc = R[1];
+Obj v_2317815_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2317815_25);
 return;
 }
 case 2:
 {
-Obj _3517807_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2317813_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun82, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3517806_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2317812_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun82, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj _3517805_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2317811_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun82, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3517804_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v_2317810_25= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun82, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
@@ -4406,13 +4415,13 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun80, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun80, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4422,62 +4431,62 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun80, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3517801_37= co->res;
-Obj acc = R[1];
-Obj _3517802_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517802_37);
+Obj v_2317807_25= co->res;
+Obj v_acc = R[1];
+Obj v_2317808_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2317808_25);
 return;
 }
 case 2:
 {
-Obj _3517800_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2317806_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun80, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3517799_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v_2317805_25= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun80, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3517798_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_2317804_25= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun80, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3517797_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_2317803_25= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun80, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -4487,10 +4496,10 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
+Obj v_sym = R[1];
+Obj v_globals = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), sym, globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v_sym, v_globals);
 return;
 }
 }
@@ -4500,36 +4509,36 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj idx = R[1];
-Obj sym = R[2];
-Obj globals = R[3];
-R[1] = idx;
-R[2] = globals;
-R[3] = sym;
+Obj v_idx = R[1];
+Obj v_sym = R[2];
+Obj v_globals = R[3];
+R[1] = v_idx;
+R[2] = v_globals;
+R[3] = v_sym;
 saveCont(co, clofun78, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3517790_37= co->res;
-Obj idx = R[1];
-Obj globals = R[2];
-Obj sym = R[3];
-if (True == _3517790_37) {
+Obj v_2317796_25= co->res;
+Obj v_idx = R[1];
+Obj v_globals = R[2];
+Obj v_sym = R[3];
+if (True == v_2317796_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517791_37 = PRIM_CAR(globals);
-Obj _3517792_37 = PRIM_EQ(sym, _3517791_37);
-if (True == _3517792_37) {
-coraReturn(co, idx);
+Obj v_2317797_25 = PRIM_CAR(v_globals);
+Obj v_2317798_25 = PRIM_EQ(v_sym, v_2317797_25);
+if (True == v_2317798_25) {
+coraReturn(co, v_idx);
 return;
 } else {
-Obj _3517793_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517794_37 = PRIM_CDR(globals);
+Obj v_2317799_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2317800_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517793_37, sym, _3517794_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v_2317799_25, v_sym, v_2317800_25);
 return;
 }
 }
@@ -4541,41 +4550,41 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
-R[1] = sym;
-R[2] = globals;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+R[1] = v_sym;
+R[2] = v_globals;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3517786_37= co->res;
-Obj sym = R[1];
-Obj val = R[2];
-Obj globals = R[3];
-if (True == _3517786_37) {
+Obj v_2317792_25= co->res;
+Obj v_sym = R[1];
+Obj v_val = R[2];
+Obj v_globals = R[3];
+if (True == v_2317792_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517787_37 = makeCons(co->gc, sym, val);
-Obj _3517788_37 = primSet(co, globals, _3517787_37);
-coraReturn(co, _3517788_37);
+Obj v_2317793_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2317794_25 = primSet(co, v_globals, v_2317793_25);
+coraReturn(co, v_2317794_25);
 return;
 }
 }
 case 2:
 {
-Obj _3517785_37= co->res;
-Obj sym = R[1];
-Obj globals = R[2];
-Obj val = _3517785_37;
-R[1] = sym;
-R[2] = val;
-R[3] = globals;
+Obj v_2317791_25= co->res;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+Obj v_val = v_2317791_25;
+R[1] = v_sym;
+R[2] = v_val;
+R[3] = v_globals;
 saveCont(co, clofun77, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), sym, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_sym, v_val);
 return;
 }
 }
@@ -4585,26 +4594,26 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj k = R[2];
-Obj _3517778_37 = primGenSym(co);
-Obj tmp = _3517778_37;
-R[1] = x;
-R[2] = tmp;
+Obj v_x = R[1];
+Obj v_k = R[2];
+Obj v_2317784_25 = primGenSym(co);
+Obj v_tmp = v_2317784_25;
+R[1] = v_x;
+R[2] = v_tmp;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, k, tmp);
+coraCall1(co, v_k, v_tmp);
 return;
 }
 case 1:
 {
-Obj _3517779_37= co->res;
-Obj x = R[1];
-Obj tmp = R[2];
-Obj _3517780_37 = makeCons(co->gc, _3517779_37, Nil);
-Obj _3517781_37 = makeCons(co->gc, x, _3517780_37);
-Obj _3517782_37 = makeCons(co->gc, tmp, _3517781_37);
-Obj _3517783_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517782_37);
-coraReturn(co, _3517783_37);
+Obj v_2317785_25= co->res;
+Obj v_x = R[1];
+Obj v_tmp = R[2];
+Obj v_2317786_25 = makeCons(co->gc, v_2317785_25, Nil);
+Obj v_2317787_25 = makeCons(co->gc, v_x, v_2317786_25);
+Obj v_2317788_25 = makeCons(co->gc, v_tmp, v_2317787_25);
+Obj v_2317789_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317788_25);
+coraReturn(co, v_2317789_25);
 return;
 }
 }
@@ -4614,52 +4623,52 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v = R[1];
-Obj val = R[2];
-R[1] = val;
-R[2] = v;
+Obj v_v = R[1];
+Obj v_val = R[2];
+R[1] = v_val;
+R[2] = v_v;
 saveCont(co, clofun75, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3517776_37= co->res;
-Obj v = R[1];
-Obj cur1 = R[2];
+Obj v_2317782_25= co->res;
+Obj v_v = R[1];
+Obj v_cur1 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v_cur1);
 return;
 }
 case 2:
 {
-Obj _3517771_37= co->res;
-Obj val = R[1];
-Obj idx = R[2];
-Obj v = R[3];
-Obj cur = _3517771_37;
-Obj _3517772_37 = makeCons(co->gc, val, Nil);
-Obj _3517773_37 = makeCons(co->gc, idx, _3517772_37);
-Obj _3517774_37 = makeCons(co->gc, _3517773_37, cur);
-Obj cur1 = _3517774_37;
-Obj _3517775_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-R[1] = v;
-R[2] = cur1;
+Obj v_2317777_25= co->res;
+Obj v_val = R[1];
+Obj v_idx = R[2];
+Obj v_v = R[3];
+Obj v_cur = v_2317777_25;
+Obj v_2317778_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2317779_25 = makeCons(co->gc, v_idx, v_2317778_25);
+Obj v_2317780_25 = makeCons(co->gc, v_2317779_25, v_cur);
+Obj v_cur1 = v_2317780_25;
+Obj v_2317781_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+R[1] = v_v;
+R[2] = v_cur1;
 saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517775_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2317781_25);
 return;
 }
 case 3:
 {
-Obj _3517770_37= co->res;
-Obj val = R[1];
-Obj v = R[2];
-Obj idx = _3517770_37;
-R[1] = val;
-R[2] = idx;
-R[3] = v;
+Obj v_2317776_25= co->res;
+Obj v_val = R[1];
+Obj v_v = R[2];
+Obj v_idx = v_2317776_25;
+R[1] = v_val;
+R[2] = v_idx;
+R[3] = v_v;
 saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4669,195 +4678,195 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = R[1];
-Obj _3516709_37 = R[2];
-Obj _3516710_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516708_37, _3516709_37);
-Obj _3517721_37 = PRIM_ISCONS(_3516709_37);
-if (True == _3517721_37) {
-Obj _3517722_37 = PRIM_CAR(_3516709_37);
-Obj _3517723_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517722_37);
-if (True == _3517723_37) {
-Obj _3517724_37 = PRIM_CDR(_3516709_37);
-Obj _3517725_37 = PRIM_ISCONS(_3517724_37);
-if (True == _3517725_37) {
-Obj _3517726_37 = PRIM_CDR(_3516709_37);
-Obj _3517727_37 = PRIM_CAR(_3517726_37);
-Obj _3517728_37 = PRIM_ISCONS(_3517727_37);
-if (True == _3517728_37) {
-Obj _3517729_37 = PRIM_CDR(_3516709_37);
-Obj _3517730_37 = PRIM_CAR(_3517729_37);
-Obj _3517731_37 = PRIM_CAR(_3517730_37);
-Obj _3517732_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517731_37);
-if (True == _3517732_37) {
-Obj _3517733_37 = PRIM_CDR(_3516709_37);
-Obj _3517734_37 = PRIM_CAR(_3517733_37);
-Obj _3517735_37 = PRIM_CDR(_3517734_37);
-Obj _3517736_37 = PRIM_ISCONS(_3517735_37);
-if (True == _3517736_37) {
-Obj _3517737_37 = PRIM_CDR(_3516709_37);
-Obj _3517738_37 = PRIM_CAR(_3517737_37);
-Obj _3517739_37 = PRIM_CDR(_3517738_37);
-Obj _3517740_37 = PRIM_CAR(_3517739_37);
-Obj params = _3517740_37;
-Obj _3517741_37 = PRIM_CDR(_3516709_37);
-Obj _3517742_37 = PRIM_CAR(_3517741_37);
-Obj _3517743_37 = PRIM_CDR(_3517742_37);
-Obj _3517744_37 = PRIM_CDR(_3517743_37);
-Obj _3517745_37 = PRIM_ISCONS(_3517744_37);
-if (True == _3517745_37) {
-Obj _3517746_37 = PRIM_CDR(_3516709_37);
-Obj _3517747_37 = PRIM_CAR(_3517746_37);
-Obj _3517748_37 = PRIM_CDR(_3517747_37);
-Obj _3517749_37 = PRIM_CDR(_3517748_37);
-Obj _3517750_37 = PRIM_CAR(_3517749_37);
-Obj body = _3517750_37;
-Obj _3517751_37 = PRIM_CDR(_3516709_37);
-Obj _3517752_37 = PRIM_CAR(_3517751_37);
-Obj _3517753_37 = PRIM_CDR(_3517752_37);
-Obj _3517754_37 = PRIM_CDR(_3517753_37);
-Obj _3517755_37 = PRIM_CDR(_3517754_37);
-Obj _3517756_37 = PRIM_EQ(Nil, _3517755_37);
-if (True == _3517756_37) {
-Obj _3517757_37 = PRIM_CDR(_3516709_37);
-Obj _3517758_37 = PRIM_CDR(_3517757_37);
-Obj fvs = _3517758_37;
-R[1] = _3516708_37;
-R[2] = params;
-R[3] = fvs;
+Obj v_2316714_25 = R[1];
+Obj v_2316715_25 = R[2];
+Obj v_2316716_25 = makeNative(co->gc, 1, clofun73, 0, 2, v_2316714_25, v_2316715_25);
+Obj v_2317727_25 = PRIM_ISCONS(v_2316715_25);
+if (True == v_2317727_25) {
+Obj v_2317728_25 = PRIM_CAR(v_2316715_25);
+Obj v_2317729_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317728_25);
+if (True == v_2317729_25) {
+Obj v_2317730_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317731_25 = PRIM_ISCONS(v_2317730_25);
+if (True == v_2317731_25) {
+Obj v_2317732_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317733_25 = PRIM_CAR(v_2317732_25);
+Obj v_2317734_25 = PRIM_ISCONS(v_2317733_25);
+if (True == v_2317734_25) {
+Obj v_2317735_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317736_25 = PRIM_CAR(v_2317735_25);
+Obj v_2317737_25 = PRIM_CAR(v_2317736_25);
+Obj v_2317738_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317737_25);
+if (True == v_2317738_25) {
+Obj v_2317739_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317740_25 = PRIM_CAR(v_2317739_25);
+Obj v_2317741_25 = PRIM_CDR(v_2317740_25);
+Obj v_2317742_25 = PRIM_ISCONS(v_2317741_25);
+if (True == v_2317742_25) {
+Obj v_2317743_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317744_25 = PRIM_CAR(v_2317743_25);
+Obj v_2317745_25 = PRIM_CDR(v_2317744_25);
+Obj v_2317746_25 = PRIM_CAR(v_2317745_25);
+Obj v_params = v_2317746_25;
+Obj v_2317747_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317748_25 = PRIM_CAR(v_2317747_25);
+Obj v_2317749_25 = PRIM_CDR(v_2317748_25);
+Obj v_2317750_25 = PRIM_CDR(v_2317749_25);
+Obj v_2317751_25 = PRIM_ISCONS(v_2317750_25);
+if (True == v_2317751_25) {
+Obj v_2317752_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317753_25 = PRIM_CAR(v_2317752_25);
+Obj v_2317754_25 = PRIM_CDR(v_2317753_25);
+Obj v_2317755_25 = PRIM_CDR(v_2317754_25);
+Obj v_2317756_25 = PRIM_CAR(v_2317755_25);
+Obj v_body = v_2317756_25;
+Obj v_2317757_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317758_25 = PRIM_CAR(v_2317757_25);
+Obj v_2317759_25 = PRIM_CDR(v_2317758_25);
+Obj v_2317760_25 = PRIM_CDR(v_2317759_25);
+Obj v_2317761_25 = PRIM_CDR(v_2317760_25);
+Obj v_2317762_25 = PRIM_EQ(Nil, v_2317761_25);
+if (True == v_2317762_25) {
+Obj v_2317763_25 = PRIM_CDR(v_2316715_25);
+Obj v_2317764_25 = PRIM_CDR(v_2317763_25);
+Obj v_fvs = v_2317764_25;
+R[1] = v_2316714_25;
+R[2] = v_params;
+R[3] = v_fvs;
 saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516708_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2316714_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, v_2316716_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517764_37= co->res;
-Obj nframe = R[1];
-Obj fvs = R[2];
-Obj cur = R[3];
-Obj _3517765_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517766_37 = makeCons(co->gc, _3517764_37, _3517765_37);
-Obj _3517767_37 = makeCons(co->gc, cur, _3517766_37);
-Obj _3517768_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517767_37);
-coraReturn(co, _3517768_37);
+Obj v_2317770_25= co->res;
+Obj v_nframe = R[1];
+Obj v_fvs = R[2];
+Obj v_cur = R[3];
+Obj v_2317771_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2317772_25 = makeCons(co->gc, v_2317770_25, v_2317771_25);
+Obj v_2317773_25 = makeCons(co->gc, v_cur, v_2317772_25);
+Obj v_2317774_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317773_25);
+coraReturn(co, v_2317774_25);
 return;
 }
 case 2:
 {
-Obj _3517763_37= co->res;
-Obj params = R[1];
-Obj nframe = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-R[1] = nframe;
-R[2] = fvs;
-R[3] = cur;
+Obj v_2317769_25= co->res;
+Obj v_params = R[1];
+Obj v_nframe = R[2];
+Obj v_fvs = R[3];
+Obj v_cur = R[4];
+R[1] = v_nframe;
+R[2] = v_fvs;
+R[3] = v_cur;
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), params);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_params);
 return;
 }
 case 3:
 {
-Obj _3517762_37= co->res;
-Obj _3516708_37 = R[1];
-Obj body2 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = R[5];
-Obj nframe = _3517762_37;
-R[1] = params;
-R[2] = nframe;
-R[3] = fvs;
-R[4] = cur;
+Obj v_2317768_25= co->res;
+Obj v_2316714_25 = R[1];
+Obj v_body2 = R[2];
+Obj v_params = R[3];
+Obj v_fvs = R[4];
+Obj v_cur = R[5];
+Obj v_nframe = v_2317768_25;
+R[1] = v_params;
+R[2] = v_nframe;
+R[3] = v_fvs;
+R[4] = v_cur;
 saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516708_37, body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2316714_25, v_body2);
 return;
 }
 case 4:
 {
-Obj _3517761_37= co->res;
-Obj _3516708_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-Obj body2 = _3517761_37;
-R[1] = _3516708_37;
-R[2] = body2;
-R[3] = params;
-R[4] = fvs;
-R[5] = cur;
+Obj v_2317767_25= co->res;
+Obj v_2316714_25 = R[1];
+Obj v_params = R[2];
+Obj v_fvs = R[3];
+Obj v_cur = R[4];
+Obj v_body2 = v_2317767_25;
+R[1] = v_2316714_25;
+R[2] = v_body2;
+R[3] = v_params;
+R[4] = v_fvs;
+R[5] = v_cur;
 saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), body2);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_body2);
 return;
 }
 case 5:
 {
-Obj _3517760_37= co->res;
-Obj body1 = R[1];
-Obj _3516708_37 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = _3517760_37;
-R[1] = _3516708_37;
-R[2] = params;
-R[3] = fvs;
-R[4] = cur;
+Obj v_2317766_25= co->res;
+Obj v_body1 = R[1];
+Obj v_2316714_25 = R[2];
+Obj v_params = R[3];
+Obj v_fvs = R[4];
+Obj v_cur = v_2317766_25;
+R[1] = v_2316714_25;
+R[2] = v_params;
+R[3] = v_fvs;
+R[4] = v_cur;
 saveCont(co, clofun74, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), params, body1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v_params, v_body1);
 return;
 }
 case 6:
 {
-Obj _3517759_37= co->res;
-Obj _3516708_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj body1 = _3517759_37;
-R[1] = body1;
-R[2] = _3516708_37;
-R[3] = params;
-R[4] = fvs;
+Obj v_2317765_25= co->res;
+Obj v_2316714_25 = R[1];
+Obj v_params = R[2];
+Obj v_fvs = R[3];
+Obj v_body1 = v_2317765_25;
+R[1] = v_body1;
+R[2] = v_2316714_25;
+R[3] = v_params;
+R[4] = v_fvs;
 saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516708_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2316714_25, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4867,8 +4876,8 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517719_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517719_37) {
+Obj v_2317725_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317725_25) {
 saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4879,9 +4888,9 @@ return;
 }
 case 1:
 {
-Obj _3517720_37= co->res;
+Obj v_2317726_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517720_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317726_25, closureRef(R[0], 1));
 return;
 }
 }
@@ -4891,38 +4900,38 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj lam = R[1];
-R[1] = lam;
+Obj v_lam = R[1];
+R[1] = v_lam;
 saveCont(co, clofun72, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
 return;
 }
 case 1:
 {
-Obj _3517717_37= co->res;
-Obj _3517716_37 = R[1];
+Obj v_2317723_25= co->res;
+Obj v_2317722_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517716_37, _3517717_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), v_2317722_25, v_2317723_25);
 return;
 }
 case 2:
 {
-Obj _3517711_37= co->res;
-Obj lam = R[1];
-Obj nargs = _3517711_37;
-Obj _3517716_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517716_37;
+Obj v_2317717_25= co->res;
+Obj v_lam = R[1];
+Obj v_nargs = v_2317717_25;
+Obj v_2317722_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2317722_25;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj _3517710_37= co->res;
-Obj lam = R[1];
-R[1] = lam;
+Obj v_2317716_25= co->res;
+Obj v_lam = R[1];
+R[1] = v_lam;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517710_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317716_25);
 return;
 }
 }
@@ -4932,35 +4941,35 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj x = R[2];
-R[1] = acc;
+Obj v_acc = R[1];
+Obj v_x = R[2];
+R[1] = v_acc;
 saveCont(co, clofun71, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
 return;
 }
 case 1:
 {
-Obj _3517713_37= co->res;
-Obj acc = R[1];
-Obj _3517714_37 = PRIM_ADD(_3517713_37, MAKE_NUMBER(1));
-Obj len = _3517714_37;
-Obj _3517715_37 = PRIM_GT(len, acc);
-if (True == _3517715_37) {
-coraReturn(co, len);
+Obj v_2317719_25= co->res;
+Obj v_acc = R[1];
+Obj v_2317720_25 = PRIM_ADD(v_2317719_25, MAKE_NUMBER(1));
+Obj v_len = v_2317720_25;
+Obj v_2317721_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2317721_25) {
+coraReturn(co, v_len);
 return;
 } else {
-coraReturn(co, acc);
+coraReturn(co, v_acc);
 return;
 }
 }
 case 2:
 {
-Obj _3517712_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v_2317718_25= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517712_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317718_25);
 return;
 }
 }
@@ -4970,10 +4979,10 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj params = R[1];
-Obj body = R[2];
+Obj v_params = R[1];
+Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, v_params));
 return;
 }
 }
@@ -4983,21 +4992,21 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body1 = R[1];
-Obj conts = R[2];
-R[1] = body1;
+Obj v_body1 = R[1];
+Obj v_conts = R[2];
+R[1] = v_body1;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_conts);
 return;
 }
 case 1:
 {
-Obj _3517705_37= co->res;
-Obj body1 = R[1];
-Obj _3517706_37 = makeCons(co->gc, body1, _3517705_37);
-Obj _3517707_37 = makeCons(co->gc, closureRef(R[0], 0), _3517706_37);
-Obj _3517708_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517707_37);
-coraReturn(co, _3517708_37);
+Obj v_2317711_25= co->res;
+Obj v_body1 = R[1];
+Obj v_2317712_25 = makeCons(co->gc, v_body1, v_2317711_25);
+Obj v_2317713_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317712_25);
+Obj v_2317714_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317713_25);
+coraReturn(co, v_2317714_25);
 return;
 }
 }
@@ -5007,24 +5016,24 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516702_37 = R[1];
-Obj _3516703_37 = R[2];
-Obj _3516704_37 = R[3];
-Obj _3516705_37 = R[4];
-Obj _3517699_37 = PRIM_EQ(Nil, _3516702_37);
-if (True == _3517699_37) {
+Obj v_2316708_25 = R[1];
+Obj v_2316709_25 = R[2];
+Obj v_2316710_25 = R[3];
+Obj v_2316711_25 = R[4];
+Obj v_2317705_25 = PRIM_EQ(Nil, v_2316708_25);
+if (True == v_2317705_25) {
 co->ctx.sp = R;
-coraCall2(co, _3516705_37, _3516704_37, _3516703_37);
+coraCall2(co, v_2316711_25, v_2316710_25, v_2316709_25);
 return;
 } else {
-Obj _3517700_37 = PRIM_ISCONS(_3516702_37);
-if (True == _3517700_37) {
-Obj _3517701_37 = PRIM_CAR(_3516702_37);
-Obj f = _3517701_37;
-Obj _3517702_37 = PRIM_CDR(_3516702_37);
-Obj args = _3517702_37;
+Obj v_2317706_25 = PRIM_ISCONS(v_2316708_25);
+if (True == v_2317706_25) {
+Obj v_2317707_25 = PRIM_CAR(v_2316708_25);
+Obj v_f = v_2317707_25;
+Obj v_2317708_25 = PRIM_CDR(v_2316708_25);
+Obj v_args = v_2317708_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516703_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516704_37, _3516705_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2316709_25, makeNative(co->gc, 3, clofun67, 2, 3, v_args, v_2316710_25, v_2316711_25));
 return;
 } else {
 co->ctx.sp = R;
@@ -5040,10 +5049,10 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f1 = R[1];
-Obj conts1 = R[2];
+Obj v_f1 = R[1];
+Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
@@ -5053,11 +5062,11 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj args1 = R[1];
-Obj conts2 = R[2];
-Obj _3517703_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj v_args1 = R[1];
+Obj v_conts2 = R[2];
+Obj v_2317709_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517703_37, conts2);
+coraCall2(co, closureRef(R[0], 0), v_2317709_25, v_conts2);
 return;
 }
 }
@@ -5067,33 +5076,33 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516696_37 = R[1];
-Obj _3516697_37 = R[2];
-Obj _3516698_37 = R[3];
-Obj _3516772_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516696_37, _3516697_37, _3516698_37);
-Obj _3517696_37 = primIsSymbol(_3516696_37);
-if (True == _3517696_37) {
+Obj v_2316702_25 = R[1];
+Obj v_2316703_25 = R[2];
+Obj v_2316704_25 = R[3];
+Obj v_2316778_25 = makeNative(co->gc, 2, clofun64, 1, 3, v_2316702_25, v_2316703_25, v_2316704_25);
+Obj v_2317702_25 = primIsSymbol(v_2316702_25);
+if (True == v_2317702_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, v_2316778_25, True);
 return;
 } else {
-R[1] = _3516772_37;
+R[1] = v_2316778_25;
 saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516696_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316702_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517697_37= co->res;
-Obj _3516772_37 = R[1];
-if (True == _3517697_37) {
+Obj v_2317703_25= co->res;
+Obj v_2316778_25 = R[1];
+if (True == v_2317703_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, v_2316778_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, False);
+coraCall1(co, v_2316778_25, False);
 return;
 }
 }
@@ -5104,63 +5113,63 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516773_37 = R[1];
-if (True == _3516773_37) {
+Obj v_2316779_25 = R[1];
+if (True == v_2316779_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516700_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517672_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517672_37) {
-Obj _3517673_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517674_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517673_37);
-if (True == _3517674_37) {
-Obj _3517675_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517676_37 = PRIM_ISCONS(_3517675_37);
-if (True == _3517676_37) {
-Obj _3517677_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517678_37 = PRIM_CAR(_3517677_37);
-Obj exp = _3517678_37;
-Obj _3517679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517680_37 = PRIM_CDR(_3517679_37);
-Obj _3517681_37 = PRIM_ISCONS(_3517680_37);
-if (True == _3517681_37) {
-Obj _3517682_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517683_37 = PRIM_CDR(_3517682_37);
-Obj _3517684_37 = PRIM_CAR(_3517683_37);
-Obj cont = _3517684_37;
-Obj _3517685_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517686_37 = PRIM_CDR(_3517685_37);
-Obj _3517687_37 = PRIM_CDR(_3517686_37);
-Obj _3517688_37 = PRIM_EQ(Nil, _3517687_37);
-if (True == _3517688_37) {
+Obj v_2316706_25 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317678_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317678_25) {
+Obj v_2317679_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317680_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317679_25);
+if (True == v_2317680_25) {
+Obj v_2317681_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317682_25 = PRIM_ISCONS(v_2317681_25);
+if (True == v_2317682_25) {
+Obj v_2317683_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317684_25 = PRIM_CAR(v_2317683_25);
+Obj v_exp = v_2317684_25;
+Obj v_2317685_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317686_25 = PRIM_CDR(v_2317685_25);
+Obj v_2317687_25 = PRIM_ISCONS(v_2317686_25);
+if (True == v_2317687_25) {
+Obj v_2317688_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317689_25 = PRIM_CDR(v_2317688_25);
+Obj v_2317690_25 = PRIM_CAR(v_2317689_25);
+Obj v_cont = v_2317690_25;
+Obj v_2317691_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317692_25 = PRIM_CDR(v_2317691_25);
+Obj v_2317693_25 = PRIM_CDR(v_2317692_25);
+Obj v_2317694_25 = PRIM_EQ(Nil, v_2317693_25);
+if (True == v_2317694_25) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v_2316706_25);
 return;
 }
 }
@@ -5172,40 +5181,40 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-R[1] = cont1;
-R[2] = conts1;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+R[1] = v_cont1;
+R[2] = v_conts1;
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
 return;
 }
 case 1:
 {
-Obj _3517690_37= co->res;
-Obj fvs = R[1];
-Obj cont1 = R[2];
-Obj conts1 = R[3];
-Obj _3517691_37 = PRIM_ADD(_3517690_37, MAKE_NUMBER(1));
-Obj _3517692_37 = makeCons(co->gc, _3517691_37, fvs);
-Obj _3517693_37 = makeCons(co->gc, closureRef(R[0], 1), _3517692_37);
-Obj _3517694_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517693_37);
-Obj _3517695_37 = makeCons(co->gc, cont1, conts1);
+Obj v_2317696_25= co->res;
+Obj v_fvs = R[1];
+Obj v_cont1 = R[2];
+Obj v_conts1 = R[3];
+Obj v_2317697_25 = PRIM_ADD(v_2317696_25, MAKE_NUMBER(1));
+Obj v_2317698_25 = makeCons(co->gc, v_2317697_25, v_fvs);
+Obj v_2317699_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317698_25);
+Obj v_2317700_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317699_25);
+Obj v_2317701_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517694_37, _3517695_37);
+coraCall2(co, closureRef(R[0], 0), v_2317700_25, v_2317701_25);
 return;
 }
 case 2:
 {
-Obj _3517689_37= co->res;
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-Obj fvs = _3517689_37;
-R[1] = fvs;
-R[2] = cont1;
-R[3] = conts1;
+Obj v_2317695_25= co->res;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+Obj v_fvs = v_2317695_25;
+R[1] = v_fvs;
+R[2] = v_cont1;
+R[3] = v_conts1;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_conts1);
 return;
 }
 }
@@ -5215,15 +5224,15 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517668_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517668_37) {
-Obj _3517669_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517669_37;
-Obj _3517670_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517670_37;
-Obj _3517671_37 = makeCons(co->gc, f, args);
+Obj v_2317674_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317674_25) {
+Obj v_2317675_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317675_25;
+Obj v_2317676_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317676_25;
+Obj v_2317677_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517671_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2317677_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5238,90 +5247,90 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = R[1];
-Obj _3516689_37 = R[2];
-R[1] = _3516689_37;
-R[2] = _3516688_37;
+Obj v_2316694_25 = R[1];
+Obj v_2316695_25 = R[2];
+R[1] = v_2316695_25;
+R[2] = v_2316694_25;
 saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516689_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316695_25);
 return;
 }
 case 1:
 {
-Obj _3517663_37= co->res;
-Obj args = R[1];
-Obj _3517664_37 = makeCons(co->gc, _3517663_37, Nil);
-Obj _3517665_37 = makeCons(co->gc, args, _3517664_37);
-Obj _3517666_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517665_37);
-coraReturn(co, _3517666_37);
+Obj v_2317669_25= co->res;
+Obj v_args = R[1];
+Obj v_2317670_25 = makeCons(co->gc, v_2317669_25, Nil);
+Obj v_2317671_25 = makeCons(co->gc, v_args, v_2317670_25);
+Obj v_2317672_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317671_25);
+coraReturn(co, v_2317672_25);
 return;
 }
 case 2:
 {
-Obj _3517591_37= co->res;
-Obj _3516689_37 = R[1];
-Obj _3516688_37 = R[2];
-if (True == _3517591_37) {
-coraReturn(co, _3516689_37);
-return;
-} else {
-Obj _3517592_37 = primIsSymbol(_3516689_37);
-if (True == _3517592_37) {
-coraReturn(co, _3516689_37);
-return;
-} else {
-Obj _3516692_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516689_37, _3516688_37);
-Obj _3517646_37 = PRIM_ISCONS(_3516689_37);
-if (True == _3517646_37) {
-Obj _3517647_37 = PRIM_CAR(_3516689_37);
-Obj _3517648_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517647_37);
-if (True == _3517648_37) {
-Obj _3517649_37 = PRIM_CDR(_3516689_37);
-Obj _3517650_37 = PRIM_ISCONS(_3517649_37);
-if (True == _3517650_37) {
-Obj _3517651_37 = PRIM_CDR(_3516689_37);
-Obj _3517652_37 = PRIM_CAR(_3517651_37);
-Obj args = _3517652_37;
-Obj _3517653_37 = PRIM_CDR(_3516689_37);
-Obj _3517654_37 = PRIM_CDR(_3517653_37);
-Obj _3517655_37 = PRIM_ISCONS(_3517654_37);
-if (True == _3517655_37) {
-Obj _3517656_37 = PRIM_CDR(_3516689_37);
-Obj _3517657_37 = PRIM_CDR(_3517656_37);
-Obj _3517658_37 = PRIM_CAR(_3517657_37);
-Obj body = _3517658_37;
-Obj _3517659_37 = PRIM_CDR(_3516689_37);
-Obj _3517660_37 = PRIM_CDR(_3517659_37);
-Obj _3517661_37 = PRIM_CDR(_3517660_37);
-Obj _3517662_37 = PRIM_EQ(Nil, _3517661_37);
-if (True == _3517662_37) {
-R[1] = args;
+Obj v_2317597_25= co->res;
+Obj v_2316695_25 = R[1];
+Obj v_2316694_25 = R[2];
+if (True == v_2317597_25) {
+coraReturn(co, v_2316695_25);
+return;
+} else {
+Obj v_2317598_25 = primIsSymbol(v_2316695_25);
+if (True == v_2317598_25) {
+coraReturn(co, v_2316695_25);
+return;
+} else {
+Obj v_2316698_25 = makeNative(co->gc, 4, clofun60, 0, 2, v_2316695_25, v_2316694_25);
+Obj v_2317652_25 = PRIM_ISCONS(v_2316695_25);
+if (True == v_2317652_25) {
+Obj v_2317653_25 = PRIM_CAR(v_2316695_25);
+Obj v_2317654_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317653_25);
+if (True == v_2317654_25) {
+Obj v_2317655_25 = PRIM_CDR(v_2316695_25);
+Obj v_2317656_25 = PRIM_ISCONS(v_2317655_25);
+if (True == v_2317656_25) {
+Obj v_2317657_25 = PRIM_CDR(v_2316695_25);
+Obj v_2317658_25 = PRIM_CAR(v_2317657_25);
+Obj v_args = v_2317658_25;
+Obj v_2317659_25 = PRIM_CDR(v_2316695_25);
+Obj v_2317660_25 = PRIM_CDR(v_2317659_25);
+Obj v_2317661_25 = PRIM_ISCONS(v_2317660_25);
+if (True == v_2317661_25) {
+Obj v_2317662_25 = PRIM_CDR(v_2316695_25);
+Obj v_2317663_25 = PRIM_CDR(v_2317662_25);
+Obj v_2317664_25 = PRIM_CAR(v_2317663_25);
+Obj v_body = v_2317664_25;
+Obj v_2317665_25 = PRIM_CDR(v_2316695_25);
+Obj v_2317666_25 = PRIM_CDR(v_2317665_25);
+Obj v_2317667_25 = PRIM_CDR(v_2317666_25);
+Obj v_2317668_25 = PRIM_EQ(Nil, v_2317667_25);
+if (True == v_2317668_25) {
+R[1] = v_args;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516688_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v_2316694_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, v_2316698_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, v_2316698_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, v_2316698_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, v_2316698_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, v_2316698_25);
 return;
 }
 }
@@ -5334,121 +5343,121 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516693_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517621_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517621_37) {
-Obj _3517622_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517623_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517622_37);
-if (True == _3517623_37) {
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = PRIM_ISCONS(_3517624_37);
-if (True == _3517625_37) {
-Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517627_37 = PRIM_CAR(_3517626_37);
-Obj val = _3517627_37;
-Obj _3517628_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517629_37 = PRIM_CDR(_3517628_37);
-Obj _3517630_37 = PRIM_ISCONS(_3517629_37);
-if (True == _3517630_37) {
-Obj _3517631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517632_37 = PRIM_CDR(_3517631_37);
-Obj _3517633_37 = PRIM_CAR(_3517632_37);
-Obj body = _3517633_37;
-Obj _3517634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517635_37 = PRIM_CDR(_3517634_37);
-Obj _3517636_37 = PRIM_CDR(_3517635_37);
-Obj _3517637_37 = PRIM_EQ(Nil, _3517636_37);
-if (True == _3517637_37) {
-R[1] = body;
-R[2] = val;
+Obj v_2316699_25 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317627_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317627_25) {
+Obj v_2317628_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317629_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317628_25);
+if (True == v_2317629_25) {
+Obj v_2317630_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317631_25 = PRIM_ISCONS(v_2317630_25);
+if (True == v_2317631_25) {
+Obj v_2317632_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317633_25 = PRIM_CAR(v_2317632_25);
+Obj v_val = v_2317633_25;
+Obj v_2317634_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317635_25 = PRIM_CDR(v_2317634_25);
+Obj v_2317636_25 = PRIM_ISCONS(v_2317635_25);
+if (True == v_2317636_25) {
+Obj v_2317637_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317638_25 = PRIM_CDR(v_2317637_25);
+Obj v_2317639_25 = PRIM_CAR(v_2317638_25);
+Obj v_body = v_2317639_25;
+Obj v_2317640_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317641_25 = PRIM_CDR(v_2317640_25);
+Obj v_2317642_25 = PRIM_CDR(v_2317641_25);
+Obj v_2317643_25 = PRIM_EQ(Nil, v_2317642_25);
+if (True == v_2317643_25) {
+R[1] = v_body;
+R[2] = v_val;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, v_2316699_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, v_2316699_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, v_2316699_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, v_2316699_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, v_2316699_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517642_37= co->res;
-Obj fvs2 = R[1];
-Obj val = R[2];
-Obj _3517643_37 = makeCons(co->gc, _3517642_37, fvs2);
-Obj _3517644_37 = makeCons(co->gc, val, _3517643_37);
-Obj _3517645_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517644_37);
-coraReturn(co, _3517645_37);
+Obj v_2317648_25= co->res;
+Obj v_fvs2 = R[1];
+Obj v_val = R[2];
+Obj v_2317649_25 = makeCons(co->gc, v_2317648_25, v_fvs2);
+Obj v_2317650_25 = makeCons(co->gc, v_val, v_2317649_25);
+Obj v_2317651_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2317650_25);
+coraReturn(co, v_2317651_25);
 return;
 }
 case 2:
 {
-Obj _3517641_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-Obj fvs2 = _3517641_37;
-R[1] = fvs2;
-R[2] = val;
+Obj v_2317647_25= co->res;
+Obj v_fvs1 = R[1];
+Obj v_body = R[2];
+Obj v_val = R[3];
+Obj v_fvs2 = v_2317647_25;
+R[1] = v_fvs2;
+R[2] = v_val;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), fvs1, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v_fvs1, v_body);
 return;
 }
 case 3:
 {
-Obj _3517640_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
+Obj v_2317646_25= co->res;
+Obj v_fvs1 = R[1];
+Obj v_body = R[2];
+Obj v_val = R[3];
+R[1] = v_fvs1;
+R[2] = v_body;
+R[3] = v_val;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517640_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317646_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj _3517639_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-Obj fvs1 = _3517639_37;
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
+Obj v_2317645_25= co->res;
+Obj v_body = R[1];
+Obj v_val = R[2];
+Obj v_fvs1 = v_2317645_25;
+R[1] = v_fvs1;
+R[2] = v_body;
+R[3] = v_val;
 saveCont(co, clofun60, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3517638_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-R[1] = body;
-R[2] = val;
+Obj v_2317644_25= co->res;
+Obj v_body = R[1];
+Obj v_val = R[2];
+R[1] = v_body;
+R[2] = v_val;
 saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517638_37, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317644_25, v_val);
 return;
 }
 }
@@ -5458,89 +5467,89 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516694_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517598_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517598_37) {
-Obj _3517599_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517600_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517599_37);
-if (True == _3517600_37) {
-Obj _3517601_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517602_37 = PRIM_ISCONS(_3517601_37);
-if (True == _3517602_37) {
-Obj _3517603_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517604_37 = PRIM_CAR(_3517603_37);
-Obj exp = _3517604_37;
-Obj _3517605_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517606_37 = PRIM_CDR(_3517605_37);
-Obj _3517607_37 = PRIM_ISCONS(_3517606_37);
-if (True == _3517607_37) {
-Obj _3517608_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517609_37 = PRIM_CDR(_3517608_37);
-Obj _3517610_37 = PRIM_CAR(_3517609_37);
-Obj cont = _3517610_37;
-Obj _3517611_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517612_37 = PRIM_CDR(_3517611_37);
-Obj _3517613_37 = PRIM_CDR(_3517612_37);
-Obj _3517614_37 = PRIM_EQ(Nil, _3517613_37);
-if (True == _3517614_37) {
-R[1] = exp;
-R[2] = cont;
+Obj v_2316700_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317604_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317604_25) {
+Obj v_2317605_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317606_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317605_25);
+if (True == v_2317606_25) {
+Obj v_2317607_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317608_25 = PRIM_ISCONS(v_2317607_25);
+if (True == v_2317608_25) {
+Obj v_2317609_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317610_25 = PRIM_CAR(v_2317609_25);
+Obj v_exp = v_2317610_25;
+Obj v_2317611_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317612_25 = PRIM_CDR(v_2317611_25);
+Obj v_2317613_25 = PRIM_ISCONS(v_2317612_25);
+if (True == v_2317613_25) {
+Obj v_2317614_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317615_25 = PRIM_CDR(v_2317614_25);
+Obj v_2317616_25 = PRIM_CAR(v_2317615_25);
+Obj v_cont = v_2317616_25;
+Obj v_2317617_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317618_25 = PRIM_CDR(v_2317617_25);
+Obj v_2317619_25 = PRIM_CDR(v_2317618_25);
+Obj v_2317620_25 = PRIM_EQ(Nil, v_2317619_25);
+if (True == v_2317620_25) {
+R[1] = v_exp;
+R[2] = v_cont;
 saveCont(co, clofun59, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, v_2316700_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, v_2316700_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, v_2316700_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, v_2316700_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, v_2316700_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517617_37= co->res;
-Obj _3517616_37 = R[1];
-Obj _3517618_37 = makeCons(co->gc, _3517617_37, Nil);
-Obj _3517619_37 = makeCons(co->gc, _3517616_37, _3517618_37);
-Obj _3517620_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517619_37);
-coraReturn(co, _3517620_37);
+Obj v_2317623_25= co->res;
+Obj v_2317622_25 = R[1];
+Obj v_2317624_25 = makeCons(co->gc, v_2317623_25, Nil);
+Obj v_2317625_25 = makeCons(co->gc, v_2317622_25, v_2317624_25);
+Obj v_2317626_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317625_25);
+coraReturn(co, v_2317626_25);
 return;
 }
 case 2:
 {
-Obj _3517616_37= co->res;
-Obj cont = R[1];
-R[1] = _3517616_37;
+Obj v_2317622_25= co->res;
+Obj v_cont = R[1];
+R[1] = v_2317622_25;
 saveCont(co, clofun59, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj _3517615_37= co->res;
-Obj exp = R[1];
-Obj cont = R[2];
-R[1] = cont;
+Obj v_2317621_25= co->res;
+Obj v_exp = R[1];
+Obj v_cont = R[2];
+R[1] = v_cont;
 saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517615_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317621_25, v_exp);
 return;
 }
 }
@@ -5550,14 +5559,14 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517593_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517593_37) {
-Obj _3517594_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517594_37;
-Obj _3517595_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517595_37;
-R[1] = f;
-R[2] = args;
+Obj v_2317599_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317599_25) {
+Obj v_2317600_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317600_25;
+Obj v_2317601_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317601_25;
+R[1] = v_f;
+R[2] = v_args;
 saveCont(co, clofun58, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
@@ -5569,12 +5578,12 @@ return;
 }
 case 1:
 {
-Obj _3517596_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517597_37 = makeCons(co->gc, f, args);
+Obj v_2317602_25= co->res;
+Obj v_f = R[1];
+Obj v_args = R[2];
+Obj v_2317603_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517596_37, _3517597_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317602_25, v_2317603_25);
 return;
 }
 }
@@ -5584,24 +5593,24 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516683_37 = R[1];
-Obj _3516684_37 = R[2];
-Obj _3516685_37 = R[3];
-Obj _3517568_37 = PRIM_EQ(Nil, _3516683_37);
-if (True == _3517568_37) {
-R[1] = _3516685_37;
+Obj v_2316689_25 = R[1];
+Obj v_2316690_25 = R[2];
+Obj v_2316691_25 = R[3];
+Obj v_2317574_25 = PRIM_EQ(Nil, v_2316689_25);
+if (True == v_2317574_25) {
+R[1] = v_2316691_25;
 saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516684_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_2316690_25);
 return;
 } else {
-Obj _3517586_37 = PRIM_ISCONS(_3516683_37);
-if (True == _3517586_37) {
-Obj _3517587_37 = PRIM_CAR(_3516683_37);
-Obj hd = _3517587_37;
-Obj _3517588_37 = PRIM_CDR(_3516683_37);
-Obj tl = _3517588_37;
+Obj v_2317592_25 = PRIM_ISCONS(v_2316689_25);
+if (True == v_2317592_25) {
+Obj v_2317593_25 = PRIM_CAR(v_2316689_25);
+Obj v_hd = v_2317593_25;
+Obj v_2317594_25 = PRIM_CDR(v_2316689_25);
+Obj v_tl = v_2317594_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516684_37, _3516685_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_hd, makeNative(co->gc, 2, clofun56, 1, 3, v_tl, v_2316690_25, v_2316691_25));
 return;
 } else {
 co->ctx.sp = R;
@@ -5612,46 +5621,46 @@ return;
 }
 case 1:
 {
-Obj _3517584_37= co->res;
-Obj _3516770_37 = R[1];
-Obj _3517585_37 = PRIM_EQ(_3517584_37, getBinding(co, packageID, 90).name);
-if (True == _3517585_37) {
+Obj v_2317590_25= co->res;
+Obj v_2316776_25 = R[1];
+Obj v_2317591_25 = PRIM_EQ(v_2317590_25, getBinding(co, packageID, 90).name);
+if (True == v_2317591_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, True);
+coraCall1(co, v_2316776_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, v_2316776_25, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517583_37= co->res;
-Obj exp = R[1];
-Obj _3516770_37 = R[2];
-if (True == _3517583_37) {
-R[1] = _3516770_37;
+Obj v_2317589_25= co->res;
+Obj v_exp = R[1];
+Obj v_2316776_25 = R[2];
+if (True == v_2317589_25) {
+R[1] = v_2316776_25;
 saveCont(co, clofun57, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, v_2316776_25, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517569_37= co->res;
-Obj _3516685_37 = R[1];
-Obj exp = _3517569_37;
-Obj _3516770_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516685_37);
-Obj _3517582_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3516770_37;
+Obj v_2317575_25= co->res;
+Obj v_2316691_25 = R[1];
+Obj v_exp = v_2317575_25;
+Obj v_2316776_25 = makeNative(co->gc, 2, clofun55, 1, 2, v_exp, v_2316691_25);
+Obj v_2317588_25 = PRIM_CAR(v_exp);
+R[1] = v_exp;
+R[2] = v_2316776_25;
 saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517582_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_2317588_25);
 return;
 }
 }
@@ -5661,10 +5670,10 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj hd1 = R[1];
-Obj _3517589_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj v_hd1 = R[1];
+Obj v_2317595_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517589_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v_2317595_25, closureRef(R[0], 2));
 return;
 }
 }
@@ -5674,40 +5683,40 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516771_37 = R[1];
-if (True == _3516771_37) {
+Obj v_2316777_25 = R[1];
+if (True == v_2316777_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517570_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517570_37) {
-Obj _3517571_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517572_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517571_37);
-coraReturn(co, _3517572_37);
+Obj v_2317576_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == v_2317576_25) {
+Obj v_2317577_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2317578_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317577_25);
+coraReturn(co, v_2317578_25);
 return;
 } else {
-Obj _3517573_37 = primGenSym(co);
-Obj val = _3517573_37;
-Obj _3517574_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517574_37;
+Obj v_2317579_25 = primGenSym(co);
+Obj v_val = v_2317579_25;
+Obj v_2317580_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2317580_25;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, closureRef(R[0], 1), val);
+coraCall1(co, closureRef(R[0], 1), v_val);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517575_37= co->res;
-Obj _3517574_37 = R[1];
-Obj _3517576_37 = makeCons(co->gc, _3517575_37, Nil);
-Obj _3517577_37 = makeCons(co->gc, _3517574_37, _3517576_37);
-Obj _3517578_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517577_37);
-Obj _3517579_37 = makeCons(co->gc, _3517578_37, Nil);
-Obj _3517580_37 = makeCons(co->gc, closureRef(R[0], 0), _3517579_37);
-Obj _3517581_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517580_37);
-coraReturn(co, _3517581_37);
+Obj v_2317581_25= co->res;
+Obj v_2317580_25 = R[1];
+Obj v_2317582_25 = makeCons(co->gc, v_2317581_25, Nil);
+Obj v_2317583_25 = makeCons(co->gc, v_2317580_25, v_2317582_25);
+Obj v_2317584_25 = makeCons(co->gc, getBinding(co, packageID, 75).name, v_2317583_25);
+Obj v_2317585_25 = makeCons(co->gc, v_2317584_25, Nil);
+Obj v_2317586_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317585_25);
+Obj v_2317587_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317586_25);
+coraReturn(co, v_2317587_25);
 return;
 }
 }
@@ -5717,32 +5726,32 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516674_37 = R[1];
-Obj _3516675_37 = R[2];
-Obj _3516768_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516674_37, _3516675_37);
-Obj _3517565_37 = primIsSymbol(_3516674_37);
-if (True == _3517565_37) {
+Obj v_2316680_25 = R[1];
+Obj v_2316681_25 = R[2];
+Obj v_2316774_25 = makeNative(co->gc, 2, clofun53, 1, 2, v_2316680_25, v_2316681_25);
+Obj v_2317571_25 = primIsSymbol(v_2316680_25);
+if (True == v_2317571_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, v_2316774_25, True);
 return;
 } else {
-R[1] = _3516768_37;
+R[1] = v_2316774_25;
 saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516674_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316680_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517566_37= co->res;
-Obj _3516768_37 = R[1];
-if (True == _3517566_37) {
+Obj v_2317572_25= co->res;
+Obj v_2316774_25 = R[1];
+if (True == v_2317572_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, v_2316774_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, False);
+coraCall1(co, v_2316774_25, False);
 return;
 }
 }
@@ -5753,8 +5762,8 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516769_37 = R[1];
-if (True == _3516769_37) {
+Obj v_2316775_25 = R[1];
+if (True == v_2316775_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5766,78 +5775,78 @@ return;
 }
 case 1:
 {
-Obj _3517431_37= co->res;
-if (True == _3517431_37) {
+Obj v_2317437_25= co->res;
+if (True == v_2317437_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516678_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517533_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517533_37) {
-Obj _3517534_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517535_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517534_37);
-if (True == _3517535_37) {
-Obj _3517536_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517537_37 = PRIM_ISCONS(_3517536_37);
-if (True == _3517537_37) {
-Obj _3517538_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517539_37 = PRIM_CAR(_3517538_37);
-Obj a = _3517539_37;
-Obj _3517540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517541_37 = PRIM_CDR(_3517540_37);
-Obj _3517542_37 = PRIM_ISCONS(_3517541_37);
-if (True == _3517542_37) {
-Obj _3517543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517544_37 = PRIM_CDR(_3517543_37);
-Obj _3517545_37 = PRIM_CAR(_3517544_37);
-Obj b = _3517545_37;
-Obj _3517546_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517547_37 = PRIM_CDR(_3517546_37);
-Obj _3517548_37 = PRIM_CDR(_3517547_37);
-Obj _3517549_37 = PRIM_ISCONS(_3517548_37);
-if (True == _3517549_37) {
-Obj _3517550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517551_37 = PRIM_CDR(_3517550_37);
-Obj _3517552_37 = PRIM_CDR(_3517551_37);
-Obj _3517553_37 = PRIM_CAR(_3517552_37);
-Obj c = _3517553_37;
-Obj _3517554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517555_37 = PRIM_CDR(_3517554_37);
-Obj _3517556_37 = PRIM_CDR(_3517555_37);
-Obj _3517557_37 = PRIM_CDR(_3517556_37);
-Obj _3517558_37 = PRIM_EQ(Nil, _3517557_37);
-if (True == _3517558_37) {
+Obj v_2316684_25 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317539_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317539_25) {
+Obj v_2317540_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317541_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317540_25);
+if (True == v_2317541_25) {
+Obj v_2317542_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317543_25 = PRIM_ISCONS(v_2317542_25);
+if (True == v_2317543_25) {
+Obj v_2317544_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317545_25 = PRIM_CAR(v_2317544_25);
+Obj v_a = v_2317545_25;
+Obj v_2317546_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317547_25 = PRIM_CDR(v_2317546_25);
+Obj v_2317548_25 = PRIM_ISCONS(v_2317547_25);
+if (True == v_2317548_25) {
+Obj v_2317549_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317550_25 = PRIM_CDR(v_2317549_25);
+Obj v_2317551_25 = PRIM_CAR(v_2317550_25);
+Obj v_b = v_2317551_25;
+Obj v_2317552_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317553_25 = PRIM_CDR(v_2317552_25);
+Obj v_2317554_25 = PRIM_CDR(v_2317553_25);
+Obj v_2317555_25 = PRIM_ISCONS(v_2317554_25);
+if (True == v_2317555_25) {
+Obj v_2317556_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317557_25 = PRIM_CDR(v_2317556_25);
+Obj v_2317558_25 = PRIM_CDR(v_2317557_25);
+Obj v_2317559_25 = PRIM_CAR(v_2317558_25);
+Obj v_c = v_2317559_25;
+Obj v_2317560_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317561_25 = PRIM_CDR(v_2317560_25);
+Obj v_2317562_25 = PRIM_CDR(v_2317561_25);
+Obj v_2317563_25 = PRIM_CDR(v_2317562_25);
+Obj v_2317564_25 = PRIM_EQ(Nil, v_2317563_25);
+if (True == v_2317564_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun52, 1, 3, b, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_a, makeNative(co->gc, 3, clofun52, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, v_2316684_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, v_2316684_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, v_2316684_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, v_2316684_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, v_2316684_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, v_2316684_25);
 return;
 }
 }
@@ -5849,30 +5858,30 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-R[1] = ra;
+Obj v_ra = R[1];
+R[1] = v_ra;
 saveCont(co, clofun52, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517560_37= co->res;
-Obj _3517559_37 = R[1];
-Obj ra = R[2];
-Obj _3517561_37 = makeCons(co->gc, _3517560_37, Nil);
-Obj _3517562_37 = makeCons(co->gc, _3517559_37, _3517561_37);
-Obj _3517563_37 = makeCons(co->gc, ra, _3517562_37);
-Obj _3517564_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517563_37);
-coraReturn(co, _3517564_37);
+Obj v_2317566_25= co->res;
+Obj v_2317565_25 = R[1];
+Obj v_ra = R[2];
+Obj v_2317567_25 = makeCons(co->gc, v_2317566_25, Nil);
+Obj v_2317568_25 = makeCons(co->gc, v_2317565_25, v_2317567_25);
+Obj v_2317569_25 = makeCons(co->gc, v_ra, v_2317568_25);
+Obj v_2317570_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317569_25);
+coraReturn(co, v_2317570_25);
 return;
 }
 case 2:
 {
-Obj _3517559_37= co->res;
-Obj ra = R[1];
-R[1] = _3517559_37;
-R[2] = ra;
+Obj v_2317565_25= co->res;
+Obj v_ra = R[1];
+R[1] = v_2317565_25;
+R[2] = v_ra;
 saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
@@ -5884,57 +5893,57 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516679_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517511_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517511_37) {
-Obj _3517512_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517513_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517512_37);
-if (True == _3517513_37) {
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_ISCONS(_3517514_37);
-if (True == _3517515_37) {
-Obj _3517516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517517_37 = PRIM_CAR(_3517516_37);
-Obj a = _3517517_37;
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517519_37 = PRIM_CDR(_3517518_37);
-Obj _3517520_37 = PRIM_ISCONS(_3517519_37);
-if (True == _3517520_37) {
-Obj _3517521_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517522_37 = PRIM_CDR(_3517521_37);
-Obj _3517523_37 = PRIM_CAR(_3517522_37);
-Obj b = _3517523_37;
-Obj _3517524_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517525_37 = PRIM_CDR(_3517524_37);
-Obj _3517526_37 = PRIM_CDR(_3517525_37);
-Obj _3517527_37 = PRIM_EQ(Nil, _3517526_37);
-if (True == _3517527_37) {
+Obj v_2316685_25 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317517_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317517_25) {
+Obj v_2317518_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317519_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317518_25);
+if (True == v_2317519_25) {
+Obj v_2317520_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317521_25 = PRIM_ISCONS(v_2317520_25);
+if (True == v_2317521_25) {
+Obj v_2317522_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317523_25 = PRIM_CAR(v_2317522_25);
+Obj v_a = v_2317523_25;
+Obj v_2317524_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317525_25 = PRIM_CDR(v_2317524_25);
+Obj v_2317526_25 = PRIM_ISCONS(v_2317525_25);
+if (True == v_2317526_25) {
+Obj v_2317527_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317528_25 = PRIM_CDR(v_2317527_25);
+Obj v_2317529_25 = PRIM_CAR(v_2317528_25);
+Obj v_b = v_2317529_25;
+Obj v_2317530_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317531_25 = PRIM_CDR(v_2317530_25);
+Obj v_2317532_25 = PRIM_CDR(v_2317531_25);
+Obj v_2317533_25 = PRIM_EQ(Nil, v_2317532_25);
+if (True == v_2317533_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun50, 1, 2, b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_a, makeNative(co->gc, 2, clofun50, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, v_2316685_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, v_2316685_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, v_2316685_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, v_2316685_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, v_2316685_25);
 return;
 }
 }
@@ -5945,14 +5954,14 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-Obj _3517528_37 = primIsSymbol(ra);
-if (True == _3517528_37) {
+Obj v_ra = R[1];
+Obj v_2317534_25 = primIsSymbol(v_ra);
+if (True == v_2317534_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = ra;
+R[1] = v_ra;
 saveCont(co, clofun50, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -5960,12 +5969,12 @@ return;
 }
 case 1:
 {
-Obj _3517529_37= co->res;
-Obj ra = R[1];
-Obj _3517530_37 = makeCons(co->gc, _3517529_37, Nil);
-Obj _3517531_37 = makeCons(co->gc, ra, _3517530_37);
-Obj _3517532_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517531_37);
-coraReturn(co, _3517532_37);
+Obj v_2317535_25= co->res;
+Obj v_ra = R[1];
+Obj v_2317536_25 = makeCons(co->gc, v_2317535_25, Nil);
+Obj v_2317537_25 = makeCons(co->gc, v_ra, v_2317536_25);
+Obj v_2317538_25 = makeCons(co->gc, getBinding(co, packageID, 85).name, v_2317537_25);
+coraReturn(co, v_2317538_25);
 return;
 }
 }
@@ -5975,73 +5984,73 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517480_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517480_37) {
-Obj _3517481_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517482_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517481_37);
-if (True == _3517482_37) {
-Obj _3517483_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517484_37 = PRIM_ISCONS(_3517483_37);
-if (True == _3517484_37) {
-Obj _3517485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj a = _3517486_37;
-Obj _3517487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_ISCONS(_3517488_37);
-if (True == _3517489_37) {
-Obj _3517490_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517491_37 = PRIM_CDR(_3517490_37);
-Obj _3517492_37 = PRIM_CAR(_3517491_37);
-Obj b = _3517492_37;
-Obj _3517493_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517494_37 = PRIM_CDR(_3517493_37);
-Obj _3517495_37 = PRIM_CDR(_3517494_37);
-Obj _3517496_37 = PRIM_ISCONS(_3517495_37);
-if (True == _3517496_37) {
-Obj _3517497_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517498_37 = PRIM_CDR(_3517497_37);
-Obj _3517499_37 = PRIM_CDR(_3517498_37);
-Obj _3517500_37 = PRIM_CAR(_3517499_37);
-Obj c = _3517500_37;
-Obj _3517501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517502_37 = PRIM_CDR(_3517501_37);
-Obj _3517503_37 = PRIM_CDR(_3517502_37);
-Obj _3517504_37 = PRIM_CDR(_3517503_37);
-Obj _3517505_37 = PRIM_EQ(Nil, _3517504_37);
-if (True == _3517505_37) {
+Obj v_2316686_25 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317486_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317486_25) {
+Obj v_2317487_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317488_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317487_25);
+if (True == v_2317488_25) {
+Obj v_2317489_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317490_25 = PRIM_ISCONS(v_2317489_25);
+if (True == v_2317490_25) {
+Obj v_2317491_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317492_25 = PRIM_CAR(v_2317491_25);
+Obj v_a = v_2317492_25;
+Obj v_2317493_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317494_25 = PRIM_CDR(v_2317493_25);
+Obj v_2317495_25 = PRIM_ISCONS(v_2317494_25);
+if (True == v_2317495_25) {
+Obj v_2317496_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317497_25 = PRIM_CDR(v_2317496_25);
+Obj v_2317498_25 = PRIM_CAR(v_2317497_25);
+Obj v_b = v_2317498_25;
+Obj v_2317499_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317500_25 = PRIM_CDR(v_2317499_25);
+Obj v_2317501_25 = PRIM_CDR(v_2317500_25);
+Obj v_2317502_25 = PRIM_ISCONS(v_2317501_25);
+if (True == v_2317502_25) {
+Obj v_2317503_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317504_25 = PRIM_CDR(v_2317503_25);
+Obj v_2317505_25 = PRIM_CDR(v_2317504_25);
+Obj v_2317506_25 = PRIM_CAR(v_2317505_25);
+Obj v_c = v_2317506_25;
+Obj v_2317507_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317508_25 = PRIM_CDR(v_2317507_25);
+Obj v_2317509_25 = PRIM_CDR(v_2317508_25);
+Obj v_2317510_25 = PRIM_CDR(v_2317509_25);
+Obj v_2317511_25 = PRIM_EQ(Nil, v_2317510_25);
+if (True == v_2317511_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun48, 1, 3, a, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_b, makeNative(co->gc, 2, clofun48, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, v_2316686_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, v_2316686_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, v_2316686_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, v_2316686_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, v_2316686_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, v_2316686_25);
 return;
 }
 }
@@ -6052,21 +6061,21 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rb = R[1];
-R[1] = rb;
+Obj v_rb = R[1];
+R[1] = v_rb;
 saveCont(co, clofun48, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517506_37= co->res;
-Obj rb = R[1];
-Obj _3517507_37 = makeCons(co->gc, _3517506_37, Nil);
-Obj _3517508_37 = makeCons(co->gc, rb, _3517507_37);
-Obj _3517509_37 = makeCons(co->gc, closureRef(R[0], 0), _3517508_37);
-Obj _3517510_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517509_37);
-coraReturn(co, _3517510_37);
+Obj v_2317512_25= co->res;
+Obj v_rb = R[1];
+Obj v_2317513_25 = makeCons(co->gc, v_2317512_25, Nil);
+Obj v_2317514_25 = makeCons(co->gc, v_rb, v_2317513_25);
+Obj v_2317515_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317514_25);
+Obj v_2317516_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317515_25);
+coraReturn(co, v_2317516_25);
 return;
 }
 }
@@ -6076,114 +6085,114 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516681_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517436_37) {
-Obj _3517437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517438_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517437_37);
-if (True == _3517438_37) {
-Obj _3517439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517440_37 = PRIM_ISCONS(_3517439_37);
-if (True == _3517440_37) {
-Obj _3517441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517442_37 = PRIM_CAR(_3517441_37);
-Obj _3517443_37 = PRIM_ISCONS(_3517442_37);
-if (True == _3517443_37) {
-Obj _3517444_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517445_37 = PRIM_CAR(_3517444_37);
-Obj _3517446_37 = PRIM_CAR(_3517445_37);
-Obj _3517447_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517446_37);
-if (True == _3517447_37) {
-Obj _3517448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517449_37 = PRIM_CAR(_3517448_37);
-Obj _3517450_37 = PRIM_CDR(_3517449_37);
-Obj _3517451_37 = PRIM_ISCONS(_3517450_37);
-if (True == _3517451_37) {
-Obj _3517452_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517453_37 = PRIM_CAR(_3517452_37);
-Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CAR(_3517454_37);
-Obj args = _3517455_37;
-Obj _3517456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517457_37 = PRIM_CAR(_3517456_37);
-Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_CDR(_3517458_37);
-Obj _3517460_37 = PRIM_ISCONS(_3517459_37);
-if (True == _3517460_37) {
-Obj _3517461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517462_37 = PRIM_CAR(_3517461_37);
-Obj _3517463_37 = PRIM_CDR(_3517462_37);
-Obj _3517464_37 = PRIM_CDR(_3517463_37);
-Obj _3517465_37 = PRIM_CAR(_3517464_37);
-Obj body = _3517465_37;
-Obj _3517466_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517467_37 = PRIM_CAR(_3517466_37);
-Obj _3517468_37 = PRIM_CDR(_3517467_37);
-Obj _3517469_37 = PRIM_CDR(_3517468_37);
-Obj _3517470_37 = PRIM_CDR(_3517469_37);
-Obj _3517471_37 = PRIM_EQ(Nil, _3517470_37);
-if (True == _3517471_37) {
-Obj _3517472_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517473_37 = PRIM_CDR(_3517472_37);
-Obj frees = _3517473_37;
-R[1] = args;
-R[2] = frees;
+Obj v_2316687_25 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317442_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317442_25) {
+Obj v_2317443_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317444_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317443_25);
+if (True == v_2317444_25) {
+Obj v_2317445_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317446_25 = PRIM_ISCONS(v_2317445_25);
+if (True == v_2317446_25) {
+Obj v_2317447_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317448_25 = PRIM_CAR(v_2317447_25);
+Obj v_2317449_25 = PRIM_ISCONS(v_2317448_25);
+if (True == v_2317449_25) {
+Obj v_2317450_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317451_25 = PRIM_CAR(v_2317450_25);
+Obj v_2317452_25 = PRIM_CAR(v_2317451_25);
+Obj v_2317453_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317452_25);
+if (True == v_2317453_25) {
+Obj v_2317454_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317455_25 = PRIM_CAR(v_2317454_25);
+Obj v_2317456_25 = PRIM_CDR(v_2317455_25);
+Obj v_2317457_25 = PRIM_ISCONS(v_2317456_25);
+if (True == v_2317457_25) {
+Obj v_2317458_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317459_25 = PRIM_CAR(v_2317458_25);
+Obj v_2317460_25 = PRIM_CDR(v_2317459_25);
+Obj v_2317461_25 = PRIM_CAR(v_2317460_25);
+Obj v_args = v_2317461_25;
+Obj v_2317462_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317463_25 = PRIM_CAR(v_2317462_25);
+Obj v_2317464_25 = PRIM_CDR(v_2317463_25);
+Obj v_2317465_25 = PRIM_CDR(v_2317464_25);
+Obj v_2317466_25 = PRIM_ISCONS(v_2317465_25);
+if (True == v_2317466_25) {
+Obj v_2317467_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317468_25 = PRIM_CAR(v_2317467_25);
+Obj v_2317469_25 = PRIM_CDR(v_2317468_25);
+Obj v_2317470_25 = PRIM_CDR(v_2317469_25);
+Obj v_2317471_25 = PRIM_CAR(v_2317470_25);
+Obj v_body = v_2317471_25;
+Obj v_2317472_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317473_25 = PRIM_CAR(v_2317472_25);
+Obj v_2317474_25 = PRIM_CDR(v_2317473_25);
+Obj v_2317475_25 = PRIM_CDR(v_2317474_25);
+Obj v_2317476_25 = PRIM_CDR(v_2317475_25);
+Obj v_2317477_25 = PRIM_EQ(Nil, v_2317476_25);
+if (True == v_2317477_25) {
+Obj v_2317478_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317479_25 = PRIM_CDR(v_2317478_25);
+Obj v_frees = v_2317479_25;
+R[1] = v_args;
+R[2] = v_frees;
 saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_body, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, v_2316687_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517474_37= co->res;
-Obj args = R[1];
-Obj frees = R[2];
-Obj _3517475_37 = makeCons(co->gc, _3517474_37, Nil);
-Obj _3517476_37 = makeCons(co->gc, args, _3517475_37);
-Obj _3517477_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517476_37);
-Obj _3517478_37 = makeCons(co->gc, _3517477_37, frees);
-Obj _3517479_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517478_37);
+Obj v_2317480_25= co->res;
+Obj v_args = R[1];
+Obj v_frees = R[2];
+Obj v_2317481_25 = makeCons(co->gc, v_2317480_25, Nil);
+Obj v_2317482_25 = makeCons(co->gc, v_args, v_2317481_25);
+Obj v_2317483_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317482_25);
+Obj v_2317484_25 = makeCons(co->gc, v_2317483_25, v_frees);
+Obj v_2317485_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317484_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517479_37);
+coraCall1(co, closureRef(R[0], 1), v_2317485_25);
 return;
 }
 }
@@ -6193,15 +6202,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517432_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517432_37) {
-Obj _3517433_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517433_37;
-Obj _3517434_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517434_37;
-Obj _3517435_37 = makeCons(co->gc, f, args);
+Obj v_2317438_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317438_25) {
+Obj v_2317439_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317439_25;
+Obj v_2317440_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317440_25;
+Obj v_2317441_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517435_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v_2317441_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6216,10 +6225,10 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3517428_37 = makeCons(co->gc, x, Nil);
-Obj _3517429_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517428_37);
-coraReturn(co, _3517429_37);
+Obj v_x = R[1];
+Obj v_2317434_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2317435_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2317434_25);
+coraReturn(co, v_2317435_25);
 return;
 }
 }
@@ -6229,151 +6238,151 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516667_37 = R[1];
-Obj _3516668_37 = R[2];
-R[1] = _3516668_37;
-R[2] = _3516667_37;
+Obj v_2316673_25 = R[1];
+Obj v_2316674_25 = R[2];
+R[1] = v_2316674_25;
+R[2] = v_2316673_25;
 saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516668_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316674_25);
 return;
 }
 case 1:
 {
-Obj _3517357_37= co->res;
-Obj _3516668_37 = R[1];
-Obj pos = _3517357_37;
-Obj _3517358_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517358_37) {
-coraReturn(co, _3516668_37);
+Obj v_2317363_25= co->res;
+Obj v_2316674_25 = R[1];
+Obj v_pos = v_2317363_25;
+Obj v_2317364_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2317364_25) {
+coraReturn(co, v_2316674_25);
 return;
 } else {
-Obj _3517359_37 = makeCons(co->gc, pos, Nil);
-Obj _3517360_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517359_37);
-coraReturn(co, _3517360_37);
+Obj v_2317365_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2317366_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2317365_25);
+coraReturn(co, v_2317366_25);
 return;
 }
 }
 case 2:
 {
-Obj _3517424_37= co->res;
-Obj _3517422_37 = R[1];
-Obj _3517425_37 = makeCons(co->gc, _3517422_37, _3517424_37);
-Obj _3517426_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517425_37);
-coraReturn(co, _3517426_37);
+Obj v_2317430_25= co->res;
+Obj v_2317428_25 = R[1];
+Obj v_2317431_25 = makeCons(co->gc, v_2317428_25, v_2317430_25);
+Obj v_2317432_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317431_25);
+coraReturn(co, v_2317432_25);
 return;
 }
 case 3:
 {
-Obj _3517423_37= co->res;
-Obj fvs1 = R[1];
-Obj _3517422_37 = R[2];
-R[1] = _3517422_37;
+Obj v_2317429_25= co->res;
+Obj v_fvs1 = R[1];
+Obj v_2317428_25 = R[2];
+R[1] = v_2317428_25;
 saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517423_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317429_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj _3517419_37= co->res;
-Obj args = R[1];
-Obj _3516667_37 = R[2];
-Obj fvs1 = R[3];
-Obj _3517420_37 = makeCons(co->gc, _3517419_37, Nil);
-Obj _3517421_37 = makeCons(co->gc, args, _3517420_37);
-Obj _3517422_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517421_37);
-R[1] = fvs1;
-R[2] = _3517422_37;
+Obj v_2317425_25= co->res;
+Obj v_args = R[1];
+Obj v_2316673_25 = R[2];
+Obj v_fvs1 = R[3];
+Obj v_2317426_25 = makeCons(co->gc, v_2317425_25, Nil);
+Obj v_2317427_25 = makeCons(co->gc, v_args, v_2317426_25);
+Obj v_2317428_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317427_25);
+R[1] = v_fvs1;
+R[2] = v_2317428_25;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2316673_25);
 return;
 }
 case 5:
 {
-Obj _3517418_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3516667_37 = R[3];
-Obj fvs1 = _3517418_37;
-R[1] = args;
-R[2] = _3516667_37;
-R[3] = fvs1;
+Obj v_2317424_25= co->res;
+Obj v_body = R[1];
+Obj v_args = R[2];
+Obj v_2316673_25 = R[3];
+Obj v_fvs1 = v_2317424_25;
+R[1] = v_args;
+R[2] = v_2316673_25;
+R[3] = v_fvs1;
 saveCont(co, clofun44, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v_fvs1, v_body);
 return;
 }
 case 6:
 {
-Obj _3517355_37= co->res;
-Obj _3516668_37 = R[1];
-Obj _3516667_37 = R[2];
-if (True == _3517355_37) {
-coraReturn(co, _3516668_37);
+Obj v_2317361_25= co->res;
+Obj v_2316674_25 = R[1];
+Obj v_2316673_25 = R[2];
+if (True == v_2317361_25) {
+coraReturn(co, v_2316674_25);
 return;
 } else {
-Obj _3517356_37 = primIsSymbol(_3516668_37);
-if (True == _3517356_37) {
-R[1] = _3516668_37;
+Obj v_2317362_25 = primIsSymbol(v_2316674_25);
+if (True == v_2317362_25) {
+R[1] = v_2316674_25;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516668_37, _3516667_37);
-return;
-} else {
-Obj _3516671_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516668_37, _3516667_37);
-Obj _3517398_37 = PRIM_ISCONS(_3516668_37);
-if (True == _3517398_37) {
-Obj _3517399_37 = PRIM_CAR(_3516668_37);
-Obj _3517400_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517399_37);
-if (True == _3517400_37) {
-Obj _3517401_37 = PRIM_CDR(_3516668_37);
-Obj _3517402_37 = PRIM_ISCONS(_3517401_37);
-if (True == _3517402_37) {
-Obj _3517403_37 = PRIM_CDR(_3516668_37);
-Obj _3517404_37 = PRIM_CAR(_3517403_37);
-Obj args = _3517404_37;
-Obj _3517405_37 = PRIM_CDR(_3516668_37);
-Obj _3517406_37 = PRIM_CDR(_3517405_37);
-Obj _3517407_37 = PRIM_ISCONS(_3517406_37);
-if (True == _3517407_37) {
-Obj _3517408_37 = PRIM_CDR(_3516668_37);
-Obj _3517409_37 = PRIM_CDR(_3517408_37);
-Obj _3517410_37 = PRIM_CAR(_3517409_37);
-Obj body = _3517410_37;
-Obj _3517411_37 = PRIM_CDR(_3516668_37);
-Obj _3517412_37 = PRIM_CDR(_3517411_37);
-Obj _3517413_37 = PRIM_CDR(_3517412_37);
-Obj _3517414_37 = PRIM_EQ(Nil, _3517413_37);
-if (True == _3517414_37) {
-Obj _3517415_37 = makeCons(co->gc, body, Nil);
-Obj _3517416_37 = makeCons(co->gc, args, _3517415_37);
-Obj _3517417_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517416_37);
-R[1] = body;
-R[2] = args;
-R[3] = _3516667_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_2316674_25, v_2316673_25);
+return;
+} else {
+Obj v_2316677_25 = makeNative(co->gc, 3, clofun43, 0, 2, v_2316674_25, v_2316673_25);
+Obj v_2317404_25 = PRIM_ISCONS(v_2316674_25);
+if (True == v_2317404_25) {
+Obj v_2317405_25 = PRIM_CAR(v_2316674_25);
+Obj v_2317406_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317405_25);
+if (True == v_2317406_25) {
+Obj v_2317407_25 = PRIM_CDR(v_2316674_25);
+Obj v_2317408_25 = PRIM_ISCONS(v_2317407_25);
+if (True == v_2317408_25) {
+Obj v_2317409_25 = PRIM_CDR(v_2316674_25);
+Obj v_2317410_25 = PRIM_CAR(v_2317409_25);
+Obj v_args = v_2317410_25;
+Obj v_2317411_25 = PRIM_CDR(v_2316674_25);
+Obj v_2317412_25 = PRIM_CDR(v_2317411_25);
+Obj v_2317413_25 = PRIM_ISCONS(v_2317412_25);
+if (True == v_2317413_25) {
+Obj v_2317414_25 = PRIM_CDR(v_2316674_25);
+Obj v_2317415_25 = PRIM_CDR(v_2317414_25);
+Obj v_2317416_25 = PRIM_CAR(v_2317415_25);
+Obj v_body = v_2317416_25;
+Obj v_2317417_25 = PRIM_CDR(v_2316674_25);
+Obj v_2317418_25 = PRIM_CDR(v_2317417_25);
+Obj v_2317419_25 = PRIM_CDR(v_2317418_25);
+Obj v_2317420_25 = PRIM_EQ(Nil, v_2317419_25);
+if (True == v_2317420_25) {
+Obj v_2317421_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2317422_25 = makeCons(co->gc, v_args, v_2317421_25);
+Obj v_2317423_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317422_25);
+R[1] = v_body;
+R[2] = v_args;
+R[3] = v_2316673_25;
 saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517417_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317423_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, v_2316677_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, v_2316677_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, v_2316677_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, v_2316677_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, v_2316677_25);
 return;
 }
 }
@@ -6386,99 +6395,99 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516672_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517366_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517366_37) {
-Obj _3517367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517368_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517367_37);
-if (True == _3517368_37) {
-Obj _3517369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517370_37 = PRIM_ISCONS(_3517369_37);
-if (True == _3517370_37) {
-Obj _3517371_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517372_37 = PRIM_CAR(_3517371_37);
-Obj a = _3517372_37;
-Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517374_37 = PRIM_CDR(_3517373_37);
-Obj _3517375_37 = PRIM_ISCONS(_3517374_37);
-if (True == _3517375_37) {
-Obj _3517376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517377_37 = PRIM_CDR(_3517376_37);
-Obj _3517378_37 = PRIM_CAR(_3517377_37);
-Obj b = _3517378_37;
-Obj _3517379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517380_37 = PRIM_CDR(_3517379_37);
-Obj _3517381_37 = PRIM_CDR(_3517380_37);
-Obj _3517382_37 = PRIM_ISCONS(_3517381_37);
-if (True == _3517382_37) {
-Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517384_37 = PRIM_CDR(_3517383_37);
-Obj _3517385_37 = PRIM_CDR(_3517384_37);
-Obj _3517386_37 = PRIM_CAR(_3517385_37);
-Obj c = _3517386_37;
-Obj _3517387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517388_37 = PRIM_CDR(_3517387_37);
-Obj _3517389_37 = PRIM_CDR(_3517388_37);
-Obj _3517390_37 = PRIM_CDR(_3517389_37);
-Obj _3517391_37 = PRIM_EQ(Nil, _3517390_37);
-if (True == _3517391_37) {
-R[1] = c;
-R[2] = a;
+Obj v_2316678_25 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317372_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317372_25) {
+Obj v_2317373_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317374_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317373_25);
+if (True == v_2317374_25) {
+Obj v_2317375_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317376_25 = PRIM_ISCONS(v_2317375_25);
+if (True == v_2317376_25) {
+Obj v_2317377_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317378_25 = PRIM_CAR(v_2317377_25);
+Obj v_a = v_2317378_25;
+Obj v_2317379_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317380_25 = PRIM_CDR(v_2317379_25);
+Obj v_2317381_25 = PRIM_ISCONS(v_2317380_25);
+if (True == v_2317381_25) {
+Obj v_2317382_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317383_25 = PRIM_CDR(v_2317382_25);
+Obj v_2317384_25 = PRIM_CAR(v_2317383_25);
+Obj v_b = v_2317384_25;
+Obj v_2317385_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317386_25 = PRIM_CDR(v_2317385_25);
+Obj v_2317387_25 = PRIM_CDR(v_2317386_25);
+Obj v_2317388_25 = PRIM_ISCONS(v_2317387_25);
+if (True == v_2317388_25) {
+Obj v_2317389_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317390_25 = PRIM_CDR(v_2317389_25);
+Obj v_2317391_25 = PRIM_CDR(v_2317390_25);
+Obj v_2317392_25 = PRIM_CAR(v_2317391_25);
+Obj v_c = v_2317392_25;
+Obj v_2317393_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317394_25 = PRIM_CDR(v_2317393_25);
+Obj v_2317395_25 = PRIM_CDR(v_2317394_25);
+Obj v_2317396_25 = PRIM_CDR(v_2317395_25);
+Obj v_2317397_25 = PRIM_EQ(Nil, v_2317396_25);
+if (True == v_2317397_25) {
+R[1] = v_c;
+R[2] = v_a;
 saveCont(co, clofun43, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), b);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, v_2316678_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, v_2316678_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, v_2316678_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, v_2316678_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, v_2316678_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, v_2316678_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517393_37= co->res;
-Obj _3517392_37 = R[1];
-Obj a = R[2];
-Obj _3517394_37 = makeCons(co->gc, _3517393_37, Nil);
-Obj _3517395_37 = makeCons(co->gc, _3517392_37, _3517394_37);
-Obj _3517396_37 = makeCons(co->gc, a, _3517395_37);
-Obj _3517397_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517396_37);
-coraReturn(co, _3517397_37);
+Obj v_2317399_25= co->res;
+Obj v_2317398_25 = R[1];
+Obj v_a = R[2];
+Obj v_2317400_25 = makeCons(co->gc, v_2317399_25, Nil);
+Obj v_2317401_25 = makeCons(co->gc, v_2317398_25, v_2317400_25);
+Obj v_2317402_25 = makeCons(co->gc, v_a, v_2317401_25);
+Obj v_2317403_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317402_25);
+coraReturn(co, v_2317403_25);
 return;
 }
 case 2:
 {
-Obj _3517392_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = _3517392_37;
-R[2] = a;
+Obj v_2317398_25= co->res;
+Obj v_c = R[1];
+Obj v_a = R[2];
+R[1] = v_2317398_25;
+R[2] = v_a;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), c);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v_c);
 return;
 }
 }
@@ -6488,14 +6497,14 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517361_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517361_37) {
-Obj _3517362_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517362_37;
-Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517363_37;
-R[1] = f;
-R[2] = args;
+Obj v_2317367_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317367_25) {
+Obj v_2317368_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317368_25;
+Obj v_2317369_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317369_25;
+R[1] = v_f;
+R[2] = v_args;
 saveCont(co, clofun42, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
@@ -6507,12 +6516,12 @@ return;
 }
 case 1:
 {
-Obj _3517364_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517365_37 = makeCons(co->gc, f, args);
+Obj v_2317370_25= co->res;
+Obj v_f = R[1];
+Obj v_args = R[2];
+Obj v_2317371_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517364_37, _3517365_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317370_25, v_2317371_25);
 return;
 }
 }
@@ -6522,86 +6531,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516654_37 = R[1];
-R[1] = _3516654_37;
+Obj v_2316660_25 = R[1];
+R[1] = v_2316660_25;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516654_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316660_25);
 return;
 }
 case 1:
 {
-Obj _3517353_37= co->res;
-Obj args = R[1];
+Obj v_2317359_25= co->res;
+Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517353_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317359_25, v_args);
 return;
 }
 case 2:
 {
-Obj _3517180_37= co->res;
-Obj _3516654_37 = R[1];
-if (True == _3517180_37) {
+Obj v_2317186_25= co->res;
+Obj v_2316660_25 = R[1];
+if (True == v_2317186_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517181_37 = primIsSymbol(_3516654_37);
-if (True == _3517181_37) {
-Obj _3517182_37 = makeCons(co->gc, _3516654_37, Nil);
-coraReturn(co, _3517182_37);
-return;
-} else {
-Obj _3516657_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516654_37);
-Obj _3517336_37 = PRIM_ISCONS(_3516654_37);
-if (True == _3517336_37) {
-Obj _3517337_37 = PRIM_CAR(_3516654_37);
-Obj _3517338_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517337_37);
-if (True == _3517338_37) {
-Obj _3517339_37 = PRIM_CDR(_3516654_37);
-Obj _3517340_37 = PRIM_ISCONS(_3517339_37);
-if (True == _3517340_37) {
-Obj _3517341_37 = PRIM_CDR(_3516654_37);
-Obj _3517342_37 = PRIM_CAR(_3517341_37);
-Obj args = _3517342_37;
-Obj _3517343_37 = PRIM_CDR(_3516654_37);
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_ISCONS(_3517344_37);
-if (True == _3517345_37) {
-Obj _3517346_37 = PRIM_CDR(_3516654_37);
-Obj _3517347_37 = PRIM_CDR(_3517346_37);
-Obj _3517348_37 = PRIM_CAR(_3517347_37);
-Obj body = _3517348_37;
-Obj _3517349_37 = PRIM_CDR(_3516654_37);
-Obj _3517350_37 = PRIM_CDR(_3517349_37);
-Obj _3517351_37 = PRIM_CDR(_3517350_37);
-Obj _3517352_37 = PRIM_EQ(Nil, _3517351_37);
-if (True == _3517352_37) {
-R[1] = args;
+Obj v_2317187_25 = primIsSymbol(v_2316660_25);
+if (True == v_2317187_25) {
+Obj v_2317188_25 = makeCons(co->gc, v_2316660_25, Nil);
+coraReturn(co, v_2317188_25);
+return;
+} else {
+Obj v_2316663_25 = makeNative(co->gc, 1, clofun40, 0, 1, v_2316660_25);
+Obj v_2317342_25 = PRIM_ISCONS(v_2316660_25);
+if (True == v_2317342_25) {
+Obj v_2317343_25 = PRIM_CAR(v_2316660_25);
+Obj v_2317344_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317343_25);
+if (True == v_2317344_25) {
+Obj v_2317345_25 = PRIM_CDR(v_2316660_25);
+Obj v_2317346_25 = PRIM_ISCONS(v_2317345_25);
+if (True == v_2317346_25) {
+Obj v_2317347_25 = PRIM_CDR(v_2316660_25);
+Obj v_2317348_25 = PRIM_CAR(v_2317347_25);
+Obj v_args = v_2317348_25;
+Obj v_2317349_25 = PRIM_CDR(v_2316660_25);
+Obj v_2317350_25 = PRIM_CDR(v_2317349_25);
+Obj v_2317351_25 = PRIM_ISCONS(v_2317350_25);
+if (True == v_2317351_25) {
+Obj v_2317352_25 = PRIM_CDR(v_2316660_25);
+Obj v_2317353_25 = PRIM_CDR(v_2317352_25);
+Obj v_2317354_25 = PRIM_CAR(v_2317353_25);
+Obj v_body = v_2317354_25;
+Obj v_2317355_25 = PRIM_CDR(v_2316660_25);
+Obj v_2317356_25 = PRIM_CDR(v_2317355_25);
+Obj v_2317357_25 = PRIM_CDR(v_2317356_25);
+Obj v_2317358_25 = PRIM_EQ(Nil, v_2317357_25);
+if (True == v_2317358_25) {
+R[1] = v_args;
 saveCont(co, clofun41, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, v_2316663_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, v_2316663_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, v_2316663_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, v_2316663_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, v_2316663_25);
 return;
 }
 }
@@ -6614,84 +6623,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516658_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517306_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517306_37) {
-Obj _3517307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517308_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517307_37);
-if (True == _3517308_37) {
-Obj _3517309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517310_37 = PRIM_ISCONS(_3517309_37);
-if (True == _3517310_37) {
-Obj _3517311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517312_37 = PRIM_CAR(_3517311_37);
-Obj x = _3517312_37;
-Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517314_37 = PRIM_CDR(_3517313_37);
-Obj _3517315_37 = PRIM_ISCONS(_3517314_37);
-if (True == _3517315_37) {
-Obj _3517316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517317_37 = PRIM_CDR(_3517316_37);
-Obj _3517318_37 = PRIM_CAR(_3517317_37);
-Obj y = _3517318_37;
-Obj _3517319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517320_37 = PRIM_CDR(_3517319_37);
-Obj _3517321_37 = PRIM_CDR(_3517320_37);
-Obj _3517322_37 = PRIM_ISCONS(_3517321_37);
-if (True == _3517322_37) {
-Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517324_37 = PRIM_CDR(_3517323_37);
-Obj _3517325_37 = PRIM_CDR(_3517324_37);
-Obj _3517326_37 = PRIM_CAR(_3517325_37);
-Obj z = _3517326_37;
-Obj _3517327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517328_37 = PRIM_CDR(_3517327_37);
-Obj _3517329_37 = PRIM_CDR(_3517328_37);
-Obj _3517330_37 = PRIM_CDR(_3517329_37);
-Obj _3517331_37 = PRIM_EQ(Nil, _3517330_37);
-if (True == _3517331_37) {
-Obj _3517332_37 = makeCons(co->gc, z, Nil);
-Obj _3517333_37 = makeCons(co->gc, y, _3517332_37);
-Obj _3517334_37 = makeCons(co->gc, x, _3517333_37);
+Obj v_2316664_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v_2317312_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317312_25) {
+Obj v_2317313_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317314_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317313_25);
+if (True == v_2317314_25) {
+Obj v_2317315_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317316_25 = PRIM_ISCONS(v_2317315_25);
+if (True == v_2317316_25) {
+Obj v_2317317_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317318_25 = PRIM_CAR(v_2317317_25);
+Obj v_x = v_2317318_25;
+Obj v_2317319_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317320_25 = PRIM_CDR(v_2317319_25);
+Obj v_2317321_25 = PRIM_ISCONS(v_2317320_25);
+if (True == v_2317321_25) {
+Obj v_2317322_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317323_25 = PRIM_CDR(v_2317322_25);
+Obj v_2317324_25 = PRIM_CAR(v_2317323_25);
+Obj v_y = v_2317324_25;
+Obj v_2317325_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317326_25 = PRIM_CDR(v_2317325_25);
+Obj v_2317327_25 = PRIM_CDR(v_2317326_25);
+Obj v_2317328_25 = PRIM_ISCONS(v_2317327_25);
+if (True == v_2317328_25) {
+Obj v_2317329_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317330_25 = PRIM_CDR(v_2317329_25);
+Obj v_2317331_25 = PRIM_CDR(v_2317330_25);
+Obj v_2317332_25 = PRIM_CAR(v_2317331_25);
+Obj v_z = v_2317332_25;
+Obj v_2317333_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317334_25 = PRIM_CDR(v_2317333_25);
+Obj v_2317335_25 = PRIM_CDR(v_2317334_25);
+Obj v_2317336_25 = PRIM_CDR(v_2317335_25);
+Obj v_2317337_25 = PRIM_EQ(Nil, v_2317336_25);
+if (True == v_2317337_25) {
+Obj v_2317338_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2317339_25 = makeCons(co->gc, v_y, v_2317338_25);
+Obj v_2317340_25 = makeCons(co->gc, v_x, v_2317339_25);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517334_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317340_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, v_2316664_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, v_2316664_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, v_2316664_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, v_2316664_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, v_2316664_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, v_2316664_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517335_37= co->res;
+Obj v_2317341_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517335_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317341_25);
 return;
 }
 }
@@ -6701,67 +6710,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516659_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517286_37) {
-Obj _3517287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517288_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517287_37);
-if (True == _3517288_37) {
-Obj _3517289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517290_37 = PRIM_ISCONS(_3517289_37);
-if (True == _3517290_37) {
-Obj _3517291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517292_37 = PRIM_CAR(_3517291_37);
-Obj x = _3517292_37;
-Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517294_37 = PRIM_CDR(_3517293_37);
-Obj _3517295_37 = PRIM_ISCONS(_3517294_37);
-if (True == _3517295_37) {
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_CDR(_3517296_37);
-Obj _3517298_37 = PRIM_CAR(_3517297_37);
-Obj y = _3517298_37;
-Obj _3517299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517300_37 = PRIM_CDR(_3517299_37);
-Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_EQ(Nil, _3517301_37);
-if (True == _3517302_37) {
-Obj _3517303_37 = makeCons(co->gc, y, Nil);
-Obj _3517304_37 = makeCons(co->gc, x, _3517303_37);
+Obj v_2316665_25 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v_2317292_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317292_25) {
+Obj v_2317293_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317294_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317293_25);
+if (True == v_2317294_25) {
+Obj v_2317295_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317296_25 = PRIM_ISCONS(v_2317295_25);
+if (True == v_2317296_25) {
+Obj v_2317297_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317298_25 = PRIM_CAR(v_2317297_25);
+Obj v_x = v_2317298_25;
+Obj v_2317299_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317300_25 = PRIM_CDR(v_2317299_25);
+Obj v_2317301_25 = PRIM_ISCONS(v_2317300_25);
+if (True == v_2317301_25) {
+Obj v_2317302_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317303_25 = PRIM_CDR(v_2317302_25);
+Obj v_2317304_25 = PRIM_CAR(v_2317303_25);
+Obj v_y = v_2317304_25;
+Obj v_2317305_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317306_25 = PRIM_CDR(v_2317305_25);
+Obj v_2317307_25 = PRIM_CDR(v_2317306_25);
+Obj v_2317308_25 = PRIM_EQ(Nil, v_2317307_25);
+if (True == v_2317308_25) {
+Obj v_2317309_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2317310_25 = makeCons(co->gc, v_x, v_2317309_25);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517304_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317310_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, v_2316665_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, v_2316665_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, v_2316665_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, v_2316665_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, v_2316665_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517305_37= co->res;
+Obj v_2317311_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517305_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317311_25);
 return;
 }
 }
@@ -6771,106 +6780,106 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516660_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517256_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517256_37) {
-Obj _3517257_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517258_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517257_37);
-if (True == _3517258_37) {
-Obj _3517259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517260_37 = PRIM_ISCONS(_3517259_37);
-if (True == _3517260_37) {
-Obj _3517261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517262_37 = PRIM_CAR(_3517261_37);
-Obj a = _3517262_37;
-Obj _3517263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517264_37 = PRIM_CDR(_3517263_37);
-Obj _3517265_37 = PRIM_ISCONS(_3517264_37);
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_CDR(_3517266_37);
-Obj _3517268_37 = PRIM_CAR(_3517267_37);
-Obj b = _3517268_37;
-Obj _3517269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517270_37 = PRIM_CDR(_3517269_37);
-Obj _3517271_37 = PRIM_CDR(_3517270_37);
-Obj _3517272_37 = PRIM_ISCONS(_3517271_37);
-if (True == _3517272_37) {
-Obj _3517273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517274_37 = PRIM_CDR(_3517273_37);
-Obj _3517275_37 = PRIM_CDR(_3517274_37);
-Obj _3517276_37 = PRIM_CAR(_3517275_37);
-Obj c = _3517276_37;
-Obj _3517277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517278_37 = PRIM_CDR(_3517277_37);
-Obj _3517279_37 = PRIM_CDR(_3517278_37);
-Obj _3517280_37 = PRIM_CDR(_3517279_37);
-Obj _3517281_37 = PRIM_EQ(Nil, _3517280_37);
-if (True == _3517281_37) {
-R[1] = c;
-R[2] = a;
+Obj v_2316666_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2317262_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317262_25) {
+Obj v_2317263_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317264_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317263_25);
+if (True == v_2317264_25) {
+Obj v_2317265_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317266_25 = PRIM_ISCONS(v_2317265_25);
+if (True == v_2317266_25) {
+Obj v_2317267_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317268_25 = PRIM_CAR(v_2317267_25);
+Obj v_a = v_2317268_25;
+Obj v_2317269_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317270_25 = PRIM_CDR(v_2317269_25);
+Obj v_2317271_25 = PRIM_ISCONS(v_2317270_25);
+if (True == v_2317271_25) {
+Obj v_2317272_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317273_25 = PRIM_CDR(v_2317272_25);
+Obj v_2317274_25 = PRIM_CAR(v_2317273_25);
+Obj v_b = v_2317274_25;
+Obj v_2317275_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317276_25 = PRIM_CDR(v_2317275_25);
+Obj v_2317277_25 = PRIM_CDR(v_2317276_25);
+Obj v_2317278_25 = PRIM_ISCONS(v_2317277_25);
+if (True == v_2317278_25) {
+Obj v_2317279_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317280_25 = PRIM_CDR(v_2317279_25);
+Obj v_2317281_25 = PRIM_CDR(v_2317280_25);
+Obj v_2317282_25 = PRIM_CAR(v_2317281_25);
+Obj v_c = v_2317282_25;
+Obj v_2317283_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317284_25 = PRIM_CDR(v_2317283_25);
+Obj v_2317285_25 = PRIM_CDR(v_2317284_25);
+Obj v_2317286_25 = PRIM_CDR(v_2317285_25);
+Obj v_2317287_25 = PRIM_EQ(Nil, v_2317286_25);
+if (True == v_2317287_25) {
+R[1] = v_c;
+R[2] = v_a;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, v_2316666_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, v_2316666_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, v_2316666_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, v_2316666_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, v_2316666_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, v_2316666_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517285_37= co->res;
-Obj _3517282_37 = R[1];
+Obj v_2317291_25= co->res;
+Obj v_2317288_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517282_37, _3517285_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317288_25, v_2317291_25);
 return;
 }
 case 2:
 {
-Obj _3517283_37= co->res;
-Obj a = R[1];
-Obj _3517282_37 = R[2];
-Obj _3517284_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517282_37;
+Obj v_2317289_25= co->res;
+Obj v_a = R[1];
+Obj v_2317288_25 = R[2];
+Obj v_2317290_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2317288_25;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517283_37, _3517284_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317289_25, v_2317290_25);
 return;
 }
 case 3:
 {
-Obj _3517282_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = a;
-R[2] = _3517282_37;
+Obj v_2317288_25= co->res;
+Obj v_c = R[1];
+Obj v_a = R[2];
+R[1] = v_a;
+R[2] = v_2317288_25;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_c);
 return;
 }
 }
@@ -6880,38 +6889,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516661_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517246_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517246_37) {
-Obj _3517247_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517248_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517247_37);
-if (True == _3517248_37) {
-Obj _3517249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517250_37 = PRIM_ISCONS(_3517249_37);
-if (True == _3517250_37) {
-Obj _3517251_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517252_37 = PRIM_CAR(_3517251_37);
-Obj lam = _3517252_37;
-Obj _3517253_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517254_37 = PRIM_CDR(_3517253_37);
-Obj more = _3517254_37;
-Obj _3517255_37 = makeCons(co->gc, lam, more);
+Obj v_2316667_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v_2317252_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317252_25) {
+Obj v_2317253_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317254_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317253_25);
+if (True == v_2317254_25) {
+Obj v_2317255_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317256_25 = PRIM_ISCONS(v_2317255_25);
+if (True == v_2317256_25) {
+Obj v_2317257_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317258_25 = PRIM_CAR(v_2317257_25);
+Obj v_lam = v_2317258_25;
+Obj v_2317259_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317260_25 = PRIM_CDR(v_2317259_25);
+Obj v_more = v_2317260_25;
+Obj v_2317261_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517255_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317261_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, v_2316667_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, v_2316667_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, v_2316667_25);
 return;
 }
 }
@@ -6922,43 +6931,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516662_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517236_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517236_37) {
-Obj _3517237_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517238_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517237_37);
-if (True == _3517238_37) {
-Obj _3517239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517240_37 = PRIM_ISCONS(_3517239_37);
-if (True == _3517240_37) {
-Obj _3517241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517242_37 = PRIM_CAR(_3517241_37);
-Obj x = _3517242_37;
-Obj _3517243_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517244_37 = PRIM_CDR(_3517243_37);
-Obj _3517245_37 = PRIM_EQ(Nil, _3517244_37);
-if (True == _3517245_37) {
+Obj v_2316668_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v_2317242_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317242_25) {
+Obj v_2317243_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317244_25 = PRIM_EQ(getBinding(co, packageID, 72).name, v_2317243_25);
+if (True == v_2317244_25) {
+Obj v_2317245_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317246_25 = PRIM_ISCONS(v_2317245_25);
+if (True == v_2317246_25) {
+Obj v_2317247_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317248_25 = PRIM_CAR(v_2317247_25);
+Obj v_x = v_2317248_25;
+Obj v_2317249_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317250_25 = PRIM_CDR(v_2317249_25);
+Obj v_2317251_25 = PRIM_EQ(Nil, v_2317250_25);
+if (True == v_2317251_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, v_2316668_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, v_2316668_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, v_2316668_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, v_2316668_25);
 return;
 }
 }
@@ -6969,67 +6978,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516663_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517216_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517216_37) {
-Obj _3517217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517218_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517217_37);
-if (True == _3517218_37) {
-Obj _3517219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517220_37 = PRIM_ISCONS(_3517219_37);
-if (True == _3517220_37) {
-Obj _3517221_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517222_37 = PRIM_CAR(_3517221_37);
-Obj exp = _3517222_37;
-Obj _3517223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517224_37 = PRIM_CDR(_3517223_37);
-Obj _3517225_37 = PRIM_ISCONS(_3517224_37);
-if (True == _3517225_37) {
-Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_CDR(_3517226_37);
-Obj _3517228_37 = PRIM_CAR(_3517227_37);
-Obj cont = _3517228_37;
-Obj _3517229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517230_37 = PRIM_CDR(_3517229_37);
-Obj _3517231_37 = PRIM_CDR(_3517230_37);
-Obj _3517232_37 = PRIM_EQ(Nil, _3517231_37);
-if (True == _3517232_37) {
-Obj _3517233_37 = makeCons(co->gc, cont, Nil);
-Obj _3517234_37 = makeCons(co->gc, exp, _3517233_37);
+Obj v_2316669_25 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v_2317222_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317222_25) {
+Obj v_2317223_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317224_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317223_25);
+if (True == v_2317224_25) {
+Obj v_2317225_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317226_25 = PRIM_ISCONS(v_2317225_25);
+if (True == v_2317226_25) {
+Obj v_2317227_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317228_25 = PRIM_CAR(v_2317227_25);
+Obj v_exp = v_2317228_25;
+Obj v_2317229_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317230_25 = PRIM_CDR(v_2317229_25);
+Obj v_2317231_25 = PRIM_ISCONS(v_2317230_25);
+if (True == v_2317231_25) {
+Obj v_2317232_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317233_25 = PRIM_CDR(v_2317232_25);
+Obj v_2317234_25 = PRIM_CAR(v_2317233_25);
+Obj v_cont = v_2317234_25;
+Obj v_2317235_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317236_25 = PRIM_CDR(v_2317235_25);
+Obj v_2317237_25 = PRIM_CDR(v_2317236_25);
+Obj v_2317238_25 = PRIM_EQ(Nil, v_2317237_25);
+if (True == v_2317238_25) {
+Obj v_2317239_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2317240_25 = makeCons(co->gc, v_exp, v_2317239_25);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517234_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317240_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, v_2316669_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, v_2316669_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, v_2316669_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, v_2316669_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, v_2316669_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517235_37= co->res;
+Obj v_2317241_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517235_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317241_25);
 return;
 }
 }
@@ -7039,43 +7048,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516664_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517206_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517206_37) {
-Obj _3517207_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517208_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517207_37);
-if (True == _3517208_37) {
-Obj _3517209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517210_37 = PRIM_ISCONS(_3517209_37);
-if (True == _3517210_37) {
-Obj _3517211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517212_37 = PRIM_CAR(_3517211_37);
-Obj exp = _3517212_37;
-Obj _3517213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517214_37 = PRIM_CDR(_3517213_37);
-Obj _3517215_37 = PRIM_EQ(Nil, _3517214_37);
-if (True == _3517215_37) {
+Obj v_2316670_25 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v_2317212_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317212_25) {
+Obj v_2317213_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317214_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317213_25);
+if (True == v_2317214_25) {
+Obj v_2317215_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317216_25 = PRIM_ISCONS(v_2317215_25);
+if (True == v_2317216_25) {
+Obj v_2317217_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317218_25 = PRIM_CAR(v_2317217_25);
+Obj v_exp = v_2317218_25;
+Obj v_2317219_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317220_25 = PRIM_CDR(v_2317219_25);
+Obj v_2317221_25 = PRIM_EQ(Nil, v_2317220_25);
+if (True == v_2317221_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, v_2316670_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, v_2316670_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, v_2316670_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, v_2316670_25);
 return;
 }
 }
@@ -7086,67 +7095,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516665_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517189_37);
-if (True == _3517190_37) {
-Obj _3517191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
-if (True == _3517192_37) {
-Obj _3517193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517194_37 = PRIM_CAR(_3517193_37);
-Obj arg = _3517194_37;
-Obj _3517195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517196_37 = PRIM_CDR(_3517195_37);
-Obj _3517197_37 = PRIM_ISCONS(_3517196_37);
-if (True == _3517197_37) {
-Obj _3517198_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517199_37 = PRIM_CDR(_3517198_37);
-Obj _3517200_37 = PRIM_CAR(_3517199_37);
-Obj body = _3517200_37;
-Obj _3517201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517202_37 = PRIM_CDR(_3517201_37);
-Obj _3517203_37 = PRIM_CDR(_3517202_37);
-Obj _3517204_37 = PRIM_EQ(Nil, _3517203_37);
-if (True == _3517204_37) {
-R[1] = arg;
+Obj v_2316671_25 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v_2317194_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317194_25) {
+Obj v_2317195_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317196_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317195_25);
+if (True == v_2317196_25) {
+Obj v_2317197_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317198_25 = PRIM_ISCONS(v_2317197_25);
+if (True == v_2317198_25) {
+Obj v_2317199_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317200_25 = PRIM_CAR(v_2317199_25);
+Obj v_arg = v_2317200_25;
+Obj v_2317201_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317202_25 = PRIM_CDR(v_2317201_25);
+Obj v_2317203_25 = PRIM_ISCONS(v_2317202_25);
+if (True == v_2317203_25) {
+Obj v_2317204_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317205_25 = PRIM_CDR(v_2317204_25);
+Obj v_2317206_25 = PRIM_CAR(v_2317205_25);
+Obj v_body = v_2317206_25;
+Obj v_2317207_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317208_25 = PRIM_CDR(v_2317207_25);
+Obj v_2317209_25 = PRIM_CDR(v_2317208_25);
+Obj v_2317210_25 = PRIM_EQ(Nil, v_2317209_25);
+if (True == v_2317210_25) {
+R[1] = v_arg;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, v_2316671_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, v_2316671_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, v_2316671_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, v_2316671_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, v_2316671_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517205_37= co->res;
-Obj arg = R[1];
+Obj v_2317211_25= co->res;
+Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517205_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317211_25, v_arg);
 return;
 }
 }
@@ -7156,15 +7165,15 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517183_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517183_37) {
-Obj _3517184_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517184_37;
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517185_37;
-Obj _3517186_37 = makeCons(co->gc, f, args);
+Obj v_2317189_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317189_25) {
+Obj v_2317190_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317190_25;
+Obj v_2317191_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317191_25;
+Obj v_2317192_25 = makeCons(co->gc, v_f, v_args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517186_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317192_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -7174,9 +7183,9 @@ return;
 }
 case 1:
 {
-Obj _3517187_37= co->res;
+Obj v_2317193_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517187_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317193_25);
 return;
 }
 }
@@ -7186,42 +7195,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516646_37 = R[1];
-Obj _3516647_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516646_37);
-Obj _3517169_37 = PRIM_ISCONS(_3516646_37);
-if (True == _3517169_37) {
-Obj _3517170_37 = PRIM_CAR(_3516646_37);
-Obj _3517171_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517170_37);
-if (True == _3517171_37) {
-Obj _3517172_37 = PRIM_CDR(_3516646_37);
-Obj _3517173_37 = PRIM_ISCONS(_3517172_37);
-if (True == _3517173_37) {
-Obj _3517174_37 = PRIM_CDR(_3516646_37);
-Obj _3517175_37 = PRIM_CAR(_3517174_37);
-Obj _3517176_37 = PRIM_CDR(_3516646_37);
-Obj _3517177_37 = PRIM_CDR(_3517176_37);
-Obj _3517178_37 = PRIM_EQ(Nil, _3517177_37);
-if (True == _3517178_37) {
+Obj v_2316652_25 = R[1];
+Obj v_2316653_25 = makeNative(co->gc, 1, clofun30, 0, 1, v_2316652_25);
+Obj v_2317175_25 = PRIM_ISCONS(v_2316652_25);
+if (True == v_2317175_25) {
+Obj v_2317176_25 = PRIM_CAR(v_2316652_25);
+Obj v_2317177_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2317176_25);
+if (True == v_2317177_25) {
+Obj v_2317178_25 = PRIM_CDR(v_2316652_25);
+Obj v_2317179_25 = PRIM_ISCONS(v_2317178_25);
+if (True == v_2317179_25) {
+Obj v_2317180_25 = PRIM_CDR(v_2316652_25);
+Obj v_2317181_25 = PRIM_CAR(v_2317180_25);
+Obj v_2317182_25 = PRIM_CDR(v_2316652_25);
+Obj v_2317183_25 = PRIM_CDR(v_2317182_25);
+Obj v_2317184_25 = PRIM_EQ(Nil, v_2317183_25);
+if (True == v_2317184_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, v_2316653_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, v_2316653_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, v_2316653_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, v_2316653_25);
 return;
 }
 }
@@ -7232,41 +7241,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516648_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517159_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517159_37) {
-Obj _3517160_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517161_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517160_37);
-if (True == _3517161_37) {
-Obj _3517162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517163_37 = PRIM_ISCONS(_3517162_37);
-if (True == _3517163_37) {
-Obj _3517164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517165_37 = PRIM_CAR(_3517164_37);
-Obj _3517166_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517167_37 = PRIM_CDR(_3517166_37);
-Obj _3517168_37 = PRIM_EQ(Nil, _3517167_37);
-if (True == _3517168_37) {
+Obj v_2316654_25 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v_2317165_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317165_25) {
+Obj v_2317166_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317167_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2317166_25);
+if (True == v_2317167_25) {
+Obj v_2317168_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317169_25 = PRIM_ISCONS(v_2317168_25);
+if (True == v_2317169_25) {
+Obj v_2317170_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317171_25 = PRIM_CAR(v_2317170_25);
+Obj v_2317172_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317173_25 = PRIM_CDR(v_2317172_25);
+Obj v_2317174_25 = PRIM_EQ(Nil, v_2317173_25);
+if (True == v_2317174_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, v_2316654_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, v_2316654_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, v_2316654_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, v_2316654_25);
 return;
 }
 }
@@ -7277,41 +7286,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516649_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517149_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517149_37) {
-Obj _3517150_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517151_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517150_37);
-if (True == _3517151_37) {
-Obj _3517152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517153_37 = PRIM_ISCONS(_3517152_37);
-if (True == _3517153_37) {
-Obj _3517154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517155_37 = PRIM_CAR(_3517154_37);
-Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517157_37 = PRIM_CDR(_3517156_37);
-Obj _3517158_37 = PRIM_EQ(Nil, _3517157_37);
-if (True == _3517158_37) {
+Obj v_2316655_25 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v_2317155_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317155_25) {
+Obj v_2317156_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317157_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317156_25);
+if (True == v_2317157_25) {
+Obj v_2317158_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317159_25 = PRIM_ISCONS(v_2317158_25);
+if (True == v_2317159_25) {
+Obj v_2317160_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317161_25 = PRIM_CAR(v_2317160_25);
+Obj v_2317162_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317163_25 = PRIM_CDR(v_2317162_25);
+Obj v_2317164_25 = PRIM_EQ(Nil, v_2317163_25);
+if (True == v_2317164_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, v_2316655_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, v_2316655_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, v_2316655_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, v_2316655_25);
 return;
 }
 }
@@ -7322,41 +7331,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516650_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517139_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517139_37) {
-Obj _3517140_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517141_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517140_37);
-if (True == _3517141_37) {
-Obj _3517142_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517143_37 = PRIM_ISCONS(_3517142_37);
-if (True == _3517143_37) {
-Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517145_37 = PRIM_CAR(_3517144_37);
-Obj _3517146_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517147_37 = PRIM_CDR(_3517146_37);
-Obj _3517148_37 = PRIM_EQ(Nil, _3517147_37);
-if (True == _3517148_37) {
+Obj v_2316656_25 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj v_2317145_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317145_25) {
+Obj v_2317146_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317147_25 = PRIM_EQ(getBinding(co, packageID, 84).name, v_2317146_25);
+if (True == v_2317147_25) {
+Obj v_2317148_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317149_25 = PRIM_ISCONS(v_2317148_25);
+if (True == v_2317149_25) {
+Obj v_2317150_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317151_25 = PRIM_CAR(v_2317150_25);
+Obj v_2317152_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317153_25 = PRIM_CDR(v_2317152_25);
+Obj v_2317154_25 = PRIM_EQ(Nil, v_2317153_25);
+if (True == v_2317154_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, v_2316656_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, v_2316656_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, v_2316656_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, v_2316656_25);
 return;
 }
 }
@@ -7367,41 +7376,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516651_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517129_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517129_37) {
-Obj _3517130_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517131_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517130_37);
-if (True == _3517131_37) {
-Obj _3517132_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517133_37 = PRIM_ISCONS(_3517132_37);
-if (True == _3517133_37) {
-Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517135_37 = PRIM_CAR(_3517134_37);
-Obj _3517136_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517137_37 = PRIM_CDR(_3517136_37);
-Obj _3517138_37 = PRIM_EQ(Nil, _3517137_37);
-if (True == _3517138_37) {
+Obj v_2316657_25 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj v_2317135_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317135_25) {
+Obj v_2317136_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317137_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2317136_25);
+if (True == v_2317137_25) {
+Obj v_2317138_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317139_25 = PRIM_ISCONS(v_2317138_25);
+if (True == v_2317139_25) {
+Obj v_2317140_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317141_25 = PRIM_CAR(v_2317140_25);
+Obj v_2317142_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317143_25 = PRIM_CDR(v_2317142_25);
+Obj v_2317144_25 = PRIM_EQ(Nil, v_2317143_25);
+if (True == v_2317144_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, v_2316657_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, v_2316657_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, v_2316657_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, v_2316657_25);
 return;
 }
 }
@@ -7412,50 +7421,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516652_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517119_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517119_37) {
-Obj _3517120_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517121_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517120_37);
-if (True == _3517121_37) {
-Obj _3517122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517123_37 = PRIM_ISCONS(_3517122_37);
-if (True == _3517123_37) {
-Obj _3517124_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517125_37 = PRIM_CAR(_3517124_37);
-Obj label = _3517125_37;
-Obj _3517126_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517127_37 = PRIM_CDR(_3517126_37);
-R[1] = _3516652_37;
+Obj v_2316658_25 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj v_2317125_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317125_25) {
+Obj v_2317126_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317127_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317126_25);
+if (True == v_2317127_25) {
+Obj v_2317128_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317129_25 = PRIM_ISCONS(v_2317128_25);
+if (True == v_2317129_25) {
+Obj v_2317130_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317131_25 = PRIM_CAR(v_2317130_25);
+Obj v_label = v_2317131_25;
+Obj v_2317132_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317133_25 = PRIM_CDR(v_2317132_25);
+R[1] = v_2316658_25;
 saveCont(co, clofun26, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, v_2316658_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, v_2316658_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, v_2316658_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517128_37= co->res;
-Obj _3516652_37 = R[1];
-if (True == _3517128_37) {
+Obj v_2317134_25= co->res;
+Obj v_2316658_25 = R[1];
+if (True == v_2317134_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, v_2316658_25);
 return;
 }
 }
@@ -7476,46 +7485,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516641_37 = R[1];
-Obj _3516642_37 = R[2];
-Obj _3517108_37 = PRIM_EQ(Nil, _3516641_37);
-if (True == _3517108_37) {
+Obj v_2316647_25 = R[1];
+Obj v_2316648_25 = R[2];
+Obj v_2317114_25 = PRIM_EQ(Nil, v_2316647_25);
+if (True == v_2317114_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516644_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516641_37, _3516642_37);
-Obj _3517114_37 = PRIM_ISCONS(_3516641_37);
-if (True == _3517114_37) {
-Obj _3517115_37 = PRIM_CAR(_3516641_37);
-Obj x = _3517115_37;
-Obj _3517116_37 = PRIM_CDR(_3516641_37);
-Obj y = _3517116_37;
-R[1] = y;
-R[2] = _3516642_37;
-R[3] = _3516644_37;
+Obj v_2316650_25 = makeNative(co->gc, 2, clofun23, 0, 2, v_2316647_25, v_2316648_25);
+Obj v_2317120_25 = PRIM_ISCONS(v_2316647_25);
+if (True == v_2317120_25) {
+Obj v_2317121_25 = PRIM_CAR(v_2316647_25);
+Obj v_x = v_2317121_25;
+Obj v_2317122_25 = PRIM_CDR(v_2316647_25);
+Obj v_y = v_2317122_25;
+R[1] = v_y;
+R[2] = v_2316648_25;
+R[3] = v_2316650_25;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_x, v_2316648_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, v_2316650_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517117_37= co->res;
-Obj y = R[1];
-Obj _3516642_37 = R[2];
-Obj _3516644_37 = R[3];
-if (True == _3517117_37) {
+Obj v_2317123_25= co->res;
+Obj v_y = R[1];
+Obj v_2316648_25 = R[2];
+Obj v_2316650_25 = R[3];
+if (True == v_2317123_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_y, v_2316648_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, v_2316650_25);
 return;
 }
 }
@@ -7526,15 +7535,15 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517109_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517109_37) {
-Obj _3517110_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517110_37;
-Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517111_37;
-R[1] = x;
+Obj v_2317115_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317115_25) {
+Obj v_2317116_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317116_25;
+Obj v_2317117_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317117_25;
+R[1] = v_x;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7544,10 +7553,10 @@ return;
 }
 case 1:
 {
-Obj _3517112_37= co->res;
-Obj x = R[1];
-Obj _3517113_37 = makeCons(co->gc, x, _3517112_37);
-coraReturn(co, _3517113_37);
+Obj v_2317118_25= co->res;
+Obj v_x = R[1];
+Obj v_2317119_25 = makeCons(co->gc, v_x, v_2317118_25);
+coraReturn(co, v_2317119_25);
 return;
 }
 }
@@ -7557,46 +7566,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516636_37 = R[1];
-Obj _3516637_37 = R[2];
-Obj _3517097_37 = PRIM_EQ(Nil, _3516636_37);
-if (True == _3517097_37) {
-coraReturn(co, _3516637_37);
+Obj v_2316642_25 = R[1];
+Obj v_2316643_25 = R[2];
+Obj v_2317103_25 = PRIM_EQ(Nil, v_2316642_25);
+if (True == v_2317103_25) {
+coraReturn(co, v_2316643_25);
 return;
 } else {
-Obj _3516639_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516636_37, _3516637_37);
-Obj _3517103_37 = PRIM_ISCONS(_3516636_37);
-if (True == _3517103_37) {
-Obj _3517104_37 = PRIM_CAR(_3516636_37);
-Obj x = _3517104_37;
-Obj _3517105_37 = PRIM_CDR(_3516636_37);
-Obj y = _3517105_37;
-R[1] = y;
-R[2] = _3516637_37;
-R[3] = _3516639_37;
+Obj v_2316645_25 = makeNative(co->gc, 2, clofun21, 0, 2, v_2316642_25, v_2316643_25);
+Obj v_2317109_25 = PRIM_ISCONS(v_2316642_25);
+if (True == v_2317109_25) {
+Obj v_2317110_25 = PRIM_CAR(v_2316642_25);
+Obj v_x = v_2317110_25;
+Obj v_2317111_25 = PRIM_CDR(v_2316642_25);
+Obj v_y = v_2317111_25;
+R[1] = v_y;
+R[2] = v_2316643_25;
+R[3] = v_2316645_25;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_x, v_2316643_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, v_2316645_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517106_37= co->res;
-Obj y = R[1];
-Obj _3516637_37 = R[2];
-Obj _3516639_37 = R[3];
-if (True == _3517106_37) {
+Obj v_2317112_25= co->res;
+Obj v_y = R[1];
+Obj v_2316643_25 = R[2];
+Obj v_2316645_25 = R[3];
+if (True == v_2317112_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, v_2316643_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, v_2316645_25);
 return;
 }
 }
@@ -7607,15 +7616,15 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517098_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517098_37) {
-Obj _3517099_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517099_37;
-Obj _3517100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517100_37;
-R[1] = x;
+Obj v_2317104_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317104_25) {
+Obj v_2317105_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317105_25;
+Obj v_2317106_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317106_25;
+R[1] = v_x;
 saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7625,10 +7634,10 @@ return;
 }
 case 1:
 {
-Obj _3517101_37= co->res;
-Obj x = R[1];
-Obj _3517102_37 = makeCons(co->gc, x, _3517101_37);
-coraReturn(co, _3517102_37);
+Obj v_2317107_25= co->res;
+Obj v_x = R[1];
+Obj v_2317108_25 = makeCons(co->gc, v_x, v_2317107_25);
+coraReturn(co, v_2317108_25);
 return;
 }
 }
@@ -7638,66 +7647,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516622_37 = R[1];
-Obj _3516623_37 = R[2];
-Obj _3516624_37 = R[3];
-Obj _3516766_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516622_37, _3516624_37, _3516623_37);
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+Obj v_2316628_25 = R[1];
+Obj v_2316629_25 = R[2];
+Obj v_2316630_25 = R[3];
+Obj v_2316772_25 = makeNative(co->gc, 2, clofun19, 1, 3, v_2316628_25, v_2316630_25, v_2316629_25);
+R[1] = v_2316630_25;
+R[2] = v_2316772_25;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2316630_25);
 return;
 }
 case 1:
 {
-Obj _3517095_37= co->res;
-Obj _3516766_37 = R[1];
-if (True == _3517095_37) {
+Obj v_2317101_25= co->res;
+Obj v_2316772_25 = R[1];
+if (True == v_2317101_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, v_2316772_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, False);
+coraCall1(co, v_2316772_25, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517094_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517094_37) {
+Obj v_2317100_25= co->res;
+Obj v_2316630_25 = R[1];
+Obj v_2316772_25 = R[2];
+if (True == v_2317100_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, v_2316772_25, True);
 return;
 } else {
-R[1] = _3516766_37;
+R[1] = v_2316772_25;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_2316630_25);
 return;
 }
 }
 case 3:
 {
-Obj _3517092_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517092_37) {
+Obj v_2317098_25= co->res;
+Obj v_2316630_25 = R[1];
+Obj v_2316772_25 = R[2];
+if (True == v_2317098_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, v_2316772_25, True);
 return;
 } else {
-Obj _3517093_37 = primIsString(_3516624_37);
-if (True == _3517093_37) {
+Obj v_2317099_25 = primIsString(v_2316630_25);
+if (True == v_2317099_25) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, v_2316772_25, True);
 return;
 } else {
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+R[1] = v_2316630_25;
+R[2] = v_2316772_25;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2316630_25);
 return;
 }
 }
@@ -7709,62 +7718,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516767_37 = R[1];
-if (True == _3516767_37) {
-Obj _3516903_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516903_37);
-coraReturn(co, _3516904_37);
-return;
-} else {
-Obj _3516626_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517079_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517079_37) {
-Obj _3517080_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517081_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517080_37);
-if (True == _3517081_37) {
-Obj _3517082_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517083_37 = PRIM_ISCONS(_3517082_37);
-if (True == _3517083_37) {
-Obj _3517084_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517085_37 = PRIM_CAR(_3517084_37);
-Obj x = _3517085_37;
-Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517087_37 = PRIM_CDR(_3517086_37);
-Obj _3517088_37 = PRIM_EQ(Nil, _3517087_37);
-if (True == _3517088_37) {
-R[1] = x;
+Obj v_2316773_25 = R[1];
+if (True == v_2316773_25) {
+Obj v_2316909_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2316910_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2316909_25);
+coraReturn(co, v_2316910_25);
+return;
+} else {
+Obj v_2316632_25 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v_2317085_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317085_25) {
+Obj v_2317086_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317087_25 = PRIM_EQ(getBinding(co, packageID, 84).name, v_2317086_25);
+if (True == v_2317087_25) {
+Obj v_2317088_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317089_25 = PRIM_ISCONS(v_2317088_25);
+if (True == v_2317089_25) {
+Obj v_2317090_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317091_25 = PRIM_CAR(v_2317090_25);
+Obj v_x = v_2317091_25;
+Obj v_2317092_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317093_25 = PRIM_CDR(v_2317092_25);
+Obj v_2317094_25 = PRIM_EQ(Nil, v_2317093_25);
+if (True == v_2317094_25) {
+R[1] = v_x;
 saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, v_2316632_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, v_2316632_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, v_2316632_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, v_2316632_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517089_37= co->res;
-Obj x = R[1];
-Obj _3517090_37 = makeCons(co->gc, x, Nil);
-Obj _3517091_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517090_37);
-coraReturn(co, _3517091_37);
+Obj v_2317095_25= co->res;
+Obj v_x = R[1];
+Obj v_2317096_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2317097_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317096_25);
+coraReturn(co, v_2317097_25);
 return;
 }
 }
@@ -7774,81 +7783,81 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516905_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516905_37) {
+Obj v_2316911_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2316911_25) {
 saveCont(co, clofun18, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516628_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517057_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517057_37) {
-Obj _3517058_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517059_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517058_37);
-if (True == _3517059_37) {
-Obj _3517060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517061_37 = PRIM_ISCONS(_3517060_37);
-if (True == _3517061_37) {
-Obj _3517062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517063_37 = PRIM_CAR(_3517062_37);
-Obj args = _3517063_37;
-Obj _3517064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517065_37 = PRIM_CDR(_3517064_37);
-Obj _3517066_37 = PRIM_ISCONS(_3517065_37);
-if (True == _3517066_37) {
-Obj _3517067_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517068_37 = PRIM_CDR(_3517067_37);
-Obj _3517069_37 = PRIM_CAR(_3517068_37);
-Obj body = _3517069_37;
-Obj _3517070_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517071_37 = PRIM_CDR(_3517070_37);
-Obj _3517072_37 = PRIM_CDR(_3517071_37);
-Obj _3517073_37 = PRIM_EQ(Nil, _3517072_37);
-if (True == _3517073_37) {
-R[1] = body;
-R[2] = args;
+Obj v_2316634_25 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317063_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317063_25) {
+Obj v_2317064_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317065_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317064_25);
+if (True == v_2317065_25) {
+Obj v_2317066_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317067_25 = PRIM_ISCONS(v_2317066_25);
+if (True == v_2317067_25) {
+Obj v_2317068_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317069_25 = PRIM_CAR(v_2317068_25);
+Obj v_args = v_2317069_25;
+Obj v_2317070_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317071_25 = PRIM_CDR(v_2317070_25);
+Obj v_2317072_25 = PRIM_ISCONS(v_2317071_25);
+if (True == v_2317072_25) {
+Obj v_2317073_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317074_25 = PRIM_CDR(v_2317073_25);
+Obj v_2317075_25 = PRIM_CAR(v_2317074_25);
+Obj v_body = v_2317075_25;
+Obj v_2317076_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317077_25 = PRIM_CDR(v_2317076_25);
+Obj v_2317078_25 = PRIM_CDR(v_2317077_25);
+Obj v_2317079_25 = PRIM_EQ(Nil, v_2317078_25);
+if (True == v_2317079_25) {
+R[1] = v_body;
+R[2] = v_args;
 saveCont(co, clofun18, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), v_args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, v_2316634_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, v_2316634_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, v_2316634_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, v_2316634_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, v_2316634_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516907_37= co->res;
-Obj _3516908_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516909_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516908_37);
-coraReturn(co, _3516909_37);
+Obj v_2316913_25= co->res;
+Obj v_2316914_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2316915_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2316914_25);
+coraReturn(co, v_2316915_25);
 return;
 }
 case 2:
 {
-Obj _3516906_37= co->res;
-if (True == _3516906_37) {
+Obj v_2316912_25= co->res;
+if (True == v_2316912_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -7859,22 +7868,22 @@ return;
 }
 case 3:
 {
-Obj _3517075_37= co->res;
-Obj args = R[1];
-Obj _3517076_37 = makeCons(co->gc, _3517075_37, Nil);
-Obj _3517077_37 = makeCons(co->gc, args, _3517076_37);
-Obj _3517078_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517077_37);
-coraReturn(co, _3517078_37);
+Obj v_2317081_25= co->res;
+Obj v_args = R[1];
+Obj v_2317082_25 = makeCons(co->gc, v_2317081_25, Nil);
+Obj v_2317083_25 = makeCons(co->gc, v_args, v_2317082_25);
+Obj v_2317084_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317083_25);
+coraReturn(co, v_2317084_25);
 return;
 }
 case 4:
 {
-Obj _3517074_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
+Obj v_2317080_25= co->res;
+Obj v_body = R[1];
+Obj v_args = R[2];
+R[1] = v_args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517074_37, closureRef(R[0], 2), body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v_2317080_25, closureRef(R[0], 2), v_body);
 return;
 }
 }
@@ -7884,74 +7893,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516629_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517025_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517025_37) {
-Obj _3517026_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517027_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517026_37);
-if (True == _3517027_37) {
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_ISCONS(_3517028_37);
-if (True == _3517029_37) {
-Obj _3517030_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517031_37 = PRIM_CAR(_3517030_37);
-Obj _3517032_37 = PRIM_ISCONS(_3517031_37);
-if (True == _3517032_37) {
-Obj _3517033_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517034_37 = PRIM_CAR(_3517033_37);
-Obj _3517035_37 = PRIM_CAR(_3517034_37);
-Obj _3517036_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517035_37);
-if (True == _3517036_37) {
-Obj _3517037_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517038_37 = PRIM_CAR(_3517037_37);
-Obj _3517039_37 = PRIM_CDR(_3517038_37);
-Obj exp1 = _3517039_37;
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517041_37 = PRIM_CDR(_3517040_37);
-Obj exp2 = _3517041_37;
-Obj _3517042_37 = primGenSym(co);
-Obj f = _3517042_37;
-Obj _3517043_37 = primGenSym(co);
-Obj v = _3517043_37;
-Obj _3517044_37 = makeCons(co->gc, v, Nil);
-Obj _3517045_37 = makeCons(co->gc, v, exp2);
-Obj _3517046_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517045_37);
-Obj _3517047_37 = makeCons(co->gc, _3517046_37, Nil);
-Obj _3517048_37 = makeCons(co->gc, _3517044_37, _3517047_37);
-Obj _3517049_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517048_37);
-Obj _3517050_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517051_37 = makeCons(co->gc, _3517050_37, Nil);
-Obj _3517052_37 = makeCons(co->gc, f, _3517051_37);
-Obj _3517053_37 = makeCons(co->gc, _3517052_37, Nil);
-Obj _3517054_37 = makeCons(co->gc, _3517049_37, _3517053_37);
-Obj _3517055_37 = makeCons(co->gc, f, _3517054_37);
-Obj _3517056_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517055_37);
+Obj v_2316635_25 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317031_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317031_25) {
+Obj v_2317032_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317033_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317032_25);
+if (True == v_2317033_25) {
+Obj v_2317034_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317035_25 = PRIM_ISCONS(v_2317034_25);
+if (True == v_2317035_25) {
+Obj v_2317036_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317037_25 = PRIM_CAR(v_2317036_25);
+Obj v_2317038_25 = PRIM_ISCONS(v_2317037_25);
+if (True == v_2317038_25) {
+Obj v_2317039_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317040_25 = PRIM_CAR(v_2317039_25);
+Obj v_2317041_25 = PRIM_CAR(v_2317040_25);
+Obj v_2317042_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317041_25);
+if (True == v_2317042_25) {
+Obj v_2317043_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317044_25 = PRIM_CAR(v_2317043_25);
+Obj v_2317045_25 = PRIM_CDR(v_2317044_25);
+Obj v_exp1 = v_2317045_25;
+Obj v_2317046_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317047_25 = PRIM_CDR(v_2317046_25);
+Obj v_exp2 = v_2317047_25;
+Obj v_2317048_25 = primGenSym(co);
+Obj v_f = v_2317048_25;
+Obj v_2317049_25 = primGenSym(co);
+Obj v_v = v_2317049_25;
+Obj v_2317050_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2317051_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2317052_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317051_25);
+Obj v_2317053_25 = makeCons(co->gc, v_2317052_25, Nil);
+Obj v_2317054_25 = makeCons(co->gc, v_2317050_25, v_2317053_25);
+Obj v_2317055_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317054_25);
+Obj v_2317056_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_exp1);
+Obj v_2317057_25 = makeCons(co->gc, v_2317056_25, Nil);
+Obj v_2317058_25 = makeCons(co->gc, v_f, v_2317057_25);
+Obj v_2317059_25 = makeCons(co->gc, v_2317058_25, Nil);
+Obj v_2317060_25 = makeCons(co->gc, v_2317055_25, v_2317059_25);
+Obj v_2317061_25 = makeCons(co->gc, v_f, v_2317060_25);
+Obj v_2317062_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317061_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517056_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317062_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, v_2316635_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, v_2316635_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, v_2316635_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, v_2316635_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, v_2316635_25);
 return;
 }
 }
@@ -7962,42 +7971,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516630_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517018_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517018_37) {
-Obj _3517019_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517020_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517019_37);
-if (True == _3517020_37) {
-Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517021_37;
-R[1] = args;
+Obj v_2316636_25 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317024_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317024_25) {
+Obj v_2317025_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317026_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317025_25);
+if (True == v_2317026_25) {
+Obj v_2317027_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317027_25;
+R[1] = v_args;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, v_2316636_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, v_2316636_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517023_37= co->res;
-Obj _3517024_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517023_37);
-coraReturn(co, _3517024_37);
+Obj v_2317029_25= co->res;
+Obj v_2317030_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317029_25);
+coraReturn(co, v_2317030_25);
 return;
 }
 case 2:
 {
-Obj _3517022_37= co->res;
-Obj args = R[1];
+Obj v_2317028_25= co->res;
+Obj v_args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517022_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317028_25, v_args);
 return;
 }
 }
@@ -8007,78 +8016,78 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516631_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516996_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516996_37) {
-Obj _3516997_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516998_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3516997_37);
-if (True == _3516998_37) {
-Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517000_37 = PRIM_ISCONS(_3516999_37);
-if (True == _3517000_37) {
-Obj _3517001_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517002_37 = PRIM_CAR(_3517001_37);
-Obj x = _3517002_37;
-Obj _3517003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517004_37 = PRIM_CDR(_3517003_37);
-Obj _3517005_37 = PRIM_ISCONS(_3517004_37);
-if (True == _3517005_37) {
-Obj _3517006_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517007_37 = PRIM_CDR(_3517006_37);
-Obj _3517008_37 = PRIM_CAR(_3517007_37);
-Obj y = _3517008_37;
-Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_CDR(_3517009_37);
-Obj _3517011_37 = PRIM_CDR(_3517010_37);
-Obj _3517012_37 = PRIM_EQ(Nil, _3517011_37);
-if (True == _3517012_37) {
-R[1] = y;
+Obj v_2316637_25 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317002_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317002_25) {
+Obj v_2317003_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317004_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317003_25);
+if (True == v_2317004_25) {
+Obj v_2317005_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317006_25 = PRIM_ISCONS(v_2317005_25);
+if (True == v_2317006_25) {
+Obj v_2317007_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317008_25 = PRIM_CAR(v_2317007_25);
+Obj v_x = v_2317008_25;
+Obj v_2317009_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317010_25 = PRIM_CDR(v_2317009_25);
+Obj v_2317011_25 = PRIM_ISCONS(v_2317010_25);
+if (True == v_2317011_25) {
+Obj v_2317012_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317013_25 = PRIM_CDR(v_2317012_25);
+Obj v_2317014_25 = PRIM_CAR(v_2317013_25);
+Obj v_y = v_2317014_25;
+Obj v_2317015_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317016_25 = PRIM_CDR(v_2317015_25);
+Obj v_2317017_25 = PRIM_CDR(v_2317016_25);
+Obj v_2317018_25 = PRIM_EQ(Nil, v_2317017_25);
+if (True == v_2317018_25) {
+R[1] = v_y;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, v_2316637_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, v_2316637_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, v_2316637_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, v_2316637_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, v_2316637_25);
 return;
 }
 }
 case 1:
 {
-Obj _3517014_37= co->res;
-Obj _3517013_37 = R[1];
-Obj _3517015_37 = makeCons(co->gc, _3517014_37, Nil);
-Obj _3517016_37 = makeCons(co->gc, _3517013_37, _3517015_37);
-Obj _3517017_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517016_37);
-coraReturn(co, _3517017_37);
+Obj v_2317020_25= co->res;
+Obj v_2317019_25 = R[1];
+Obj v_2317021_25 = makeCons(co->gc, v_2317020_25, Nil);
+Obj v_2317022_25 = makeCons(co->gc, v_2317019_25, v_2317021_25);
+Obj v_2317023_25 = makeCons(co->gc, getBinding(co, packageID, 85).name, v_2317022_25);
+coraReturn(co, v_2317023_25);
 return;
 }
 case 2:
 {
-Obj _3517013_37= co->res;
-Obj y = R[1];
-R[1] = _3517013_37;
+Obj v_2317019_25= co->res;
+Obj v_y = R[1];
+R[1] = v_2317019_25;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_y);
 return;
 }
 }
@@ -8088,100 +8097,100 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516632_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516963_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516963_37) {
-Obj _3516964_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516965_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516964_37);
-if (True == _3516965_37) {
-Obj _3516966_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516967_37 = PRIM_ISCONS(_3516966_37);
-if (True == _3516967_37) {
-Obj _3516968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516969_37 = PRIM_CAR(_3516968_37);
-Obj a = _3516969_37;
-Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516971_37 = PRIM_CDR(_3516970_37);
-Obj _3516972_37 = PRIM_ISCONS(_3516971_37);
-if (True == _3516972_37) {
-Obj _3516973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516974_37 = PRIM_CDR(_3516973_37);
-Obj _3516975_37 = PRIM_CAR(_3516974_37);
-Obj b = _3516975_37;
-Obj _3516976_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516977_37 = PRIM_CDR(_3516976_37);
-Obj _3516978_37 = PRIM_CDR(_3516977_37);
-Obj _3516979_37 = PRIM_ISCONS(_3516978_37);
-if (True == _3516979_37) {
-Obj _3516980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516981_37 = PRIM_CDR(_3516980_37);
-Obj _3516982_37 = PRIM_CDR(_3516981_37);
-Obj _3516983_37 = PRIM_CAR(_3516982_37);
-Obj c = _3516983_37;
-Obj _3516984_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516985_37 = PRIM_CDR(_3516984_37);
-Obj _3516986_37 = PRIM_CDR(_3516985_37);
-Obj _3516987_37 = PRIM_CDR(_3516986_37);
-Obj _3516988_37 = PRIM_EQ(Nil, _3516987_37);
-if (True == _3516988_37) {
-R[1] = c;
-R[2] = a;
+Obj v_2316638_25 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2316969_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316969_25) {
+Obj v_2316970_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316971_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2316970_25);
+if (True == v_2316971_25) {
+Obj v_2316972_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316973_25 = PRIM_ISCONS(v_2316972_25);
+if (True == v_2316973_25) {
+Obj v_2316974_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316975_25 = PRIM_CAR(v_2316974_25);
+Obj v_a = v_2316975_25;
+Obj v_2316976_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316977_25 = PRIM_CDR(v_2316976_25);
+Obj v_2316978_25 = PRIM_ISCONS(v_2316977_25);
+if (True == v_2316978_25) {
+Obj v_2316979_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316980_25 = PRIM_CDR(v_2316979_25);
+Obj v_2316981_25 = PRIM_CAR(v_2316980_25);
+Obj v_b = v_2316981_25;
+Obj v_2316982_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316983_25 = PRIM_CDR(v_2316982_25);
+Obj v_2316984_25 = PRIM_CDR(v_2316983_25);
+Obj v_2316985_25 = PRIM_ISCONS(v_2316984_25);
+if (True == v_2316985_25) {
+Obj v_2316986_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316987_25 = PRIM_CDR(v_2316986_25);
+Obj v_2316988_25 = PRIM_CDR(v_2316987_25);
+Obj v_2316989_25 = PRIM_CAR(v_2316988_25);
+Obj v_c = v_2316989_25;
+Obj v_2316990_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316991_25 = PRIM_CDR(v_2316990_25);
+Obj v_2316992_25 = PRIM_CDR(v_2316991_25);
+Obj v_2316993_25 = PRIM_CDR(v_2316992_25);
+Obj v_2316994_25 = PRIM_EQ(Nil, v_2316993_25);
+if (True == v_2316994_25) {
+R[1] = v_c;
+R[2] = v_a;
 saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, v_2316638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, v_2316638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, v_2316638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, v_2316638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, v_2316638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, v_2316638_25);
 return;
 }
 }
 case 1:
 {
-Obj _3516991_37= co->res;
-Obj _3516989_37 = R[1];
-Obj a = R[2];
-Obj _3516992_37 = makeCons(co->gc, _3516991_37, Nil);
-Obj _3516993_37 = makeCons(co->gc, _3516989_37, _3516992_37);
-Obj _3516994_37 = makeCons(co->gc, a, _3516993_37);
-Obj _3516995_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516994_37);
-coraReturn(co, _3516995_37);
+Obj v_2316997_25= co->res;
+Obj v_2316995_25 = R[1];
+Obj v_a = R[2];
+Obj v_2316998_25 = makeCons(co->gc, v_2316997_25, Nil);
+Obj v_2316999_25 = makeCons(co->gc, v_2316995_25, v_2316998_25);
+Obj v_2317000_25 = makeCons(co->gc, v_a, v_2316999_25);
+Obj v_2317001_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317000_25);
+coraReturn(co, v_2317001_25);
 return;
 }
 case 2:
 {
-Obj _3516989_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3516990_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3516989_37;
-R[2] = a;
+Obj v_2316995_25= co->res;
+Obj v_c = R[1];
+Obj v_a = R[2];
+Obj v_2316996_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2316995_25;
+R[2] = v_a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3516990_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v_2316996_25, closureRef(R[0], 2), v_c);
 return;
 }
 }
@@ -8191,85 +8200,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516633_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516931_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516931_37) {
-Obj _3516932_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516933_37 = PRIM_ISCONS(_3516932_37);
-if (True == _3516933_37) {
-Obj _3516934_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516935_37 = PRIM_CAR(_3516934_37);
-Obj _3516936_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516935_37);
-if (True == _3516936_37) {
-Obj _3516937_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516938_37 = PRIM_CDR(_3516937_37);
-Obj exp1 = _3516938_37;
-Obj _3516939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516940_37 = PRIM_ISCONS(_3516939_37);
-if (True == _3516940_37) {
-Obj _3516941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516942_37 = PRIM_CAR(_3516941_37);
-Obj _3516943_37 = PRIM_ISCONS(_3516942_37);
-if (True == _3516943_37) {
-Obj _3516944_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516945_37 = PRIM_CAR(_3516944_37);
-Obj _3516946_37 = PRIM_CAR(_3516945_37);
-Obj _3516947_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516946_37);
-if (True == _3516947_37) {
-Obj _3516948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516949_37 = PRIM_CAR(_3516948_37);
-Obj _3516950_37 = PRIM_CDR(_3516949_37);
-Obj exp2 = _3516950_37;
-Obj _3516951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516952_37 = PRIM_CDR(_3516951_37);
-Obj _3516953_37 = PRIM_EQ(Nil, _3516952_37);
-if (True == _3516953_37) {
-Obj _3516954_37 = primGenSym(co);
-Obj f = _3516954_37;
-Obj _3516955_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3516956_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3516957_37 = makeCons(co->gc, _3516956_37, Nil);
-Obj _3516958_37 = makeCons(co->gc, f, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, _3516958_37, Nil);
-Obj _3516960_37 = makeCons(co->gc, _3516955_37, _3516959_37);
-Obj _3516961_37 = makeCons(co->gc, f, _3516960_37);
-Obj _3516962_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516961_37);
+Obj v_2316639_25 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2316937_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316937_25) {
+Obj v_2316938_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316939_25 = PRIM_ISCONS(v_2316938_25);
+if (True == v_2316939_25) {
+Obj v_2316940_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316941_25 = PRIM_CAR(v_2316940_25);
+Obj v_2316942_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2316941_25);
+if (True == v_2316942_25) {
+Obj v_2316943_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316944_25 = PRIM_CDR(v_2316943_25);
+Obj v_exp1 = v_2316944_25;
+Obj v_2316945_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316946_25 = PRIM_ISCONS(v_2316945_25);
+if (True == v_2316946_25) {
+Obj v_2316947_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316948_25 = PRIM_CAR(v_2316947_25);
+Obj v_2316949_25 = PRIM_ISCONS(v_2316948_25);
+if (True == v_2316949_25) {
+Obj v_2316950_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316951_25 = PRIM_CAR(v_2316950_25);
+Obj v_2316952_25 = PRIM_CAR(v_2316951_25);
+Obj v_2316953_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2316952_25);
+if (True == v_2316953_25) {
+Obj v_2316954_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316955_25 = PRIM_CAR(v_2316954_25);
+Obj v_2316956_25 = PRIM_CDR(v_2316955_25);
+Obj v_exp2 = v_2316956_25;
+Obj v_2316957_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2316958_25 = PRIM_CDR(v_2316957_25);
+Obj v_2316959_25 = PRIM_EQ(Nil, v_2316958_25);
+if (True == v_2316959_25) {
+Obj v_2316960_25 = primGenSym(co);
+Obj v_f = v_2316960_25;
+Obj v_2316961_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_exp1);
+Obj v_2316962_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_exp2);
+Obj v_2316963_25 = makeCons(co->gc, v_2316962_25, Nil);
+Obj v_2316964_25 = makeCons(co->gc, v_f, v_2316963_25);
+Obj v_2316965_25 = makeCons(co->gc, v_2316964_25, Nil);
+Obj v_2316966_25 = makeCons(co->gc, v_2316961_25, v_2316965_25);
+Obj v_2316967_25 = makeCons(co->gc, v_f, v_2316966_25);
+Obj v_2316968_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2316967_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516962_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_2316968_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, v_2316639_25);
 return;
 }
 }
@@ -8280,90 +8289,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516634_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516911_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516911_37) {
-Obj _3516912_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516912_37;
-Obj _3516913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516913_37;
-R[1] = op;
-R[2] = args;
-R[3] = _3516634_37;
+Obj v_2316640_25 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2316917_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316917_25) {
+Obj v_2316918_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2316918_25;
+Obj v_2316919_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2316919_25;
+R[1] = v_op;
+R[2] = v_args;
+R[3] = v_2316640_25;
 saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, v_2316640_25);
 return;
 }
 }
 case 1:
 {
-Obj _3516921_37= co->res;
-Obj _3516919_37 = R[1];
-Obj _3516922_37 = makeCons(co->gc, _3516919_37, _3516921_37);
-coraReturn(co, _3516922_37);
+Obj v_2316927_25= co->res;
+Obj v_2316925_25 = R[1];
+Obj v_2316928_25 = makeCons(co->gc, v_2316925_25, v_2316927_25);
+coraReturn(co, v_2316928_25);
 return;
 }
 case 2:
 {
-Obj _3516920_37= co->res;
-Obj args = R[1];
-Obj _3516919_37 = R[2];
-R[1] = _3516919_37;
+Obj v_2316926_25= co->res;
+Obj v_args = R[1];
+Obj v_2316925_25 = R[2];
+R[1] = v_2316925_25;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516920_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2316926_25, v_args);
 return;
 }
 case 3:
 {
-Obj _3516927_37= co->res;
-Obj tmp = R[1];
-Obj _3516928_37 = makeCons(co->gc, _3516927_37, Nil);
-Obj _3516929_37 = makeCons(co->gc, tmp, _3516928_37);
-Obj _3516930_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516929_37);
+Obj v_2316933_25= co->res;
+Obj v_tmp = R[1];
+Obj v_2316934_25 = makeCons(co->gc, v_2316933_25, Nil);
+Obj v_2316935_25 = makeCons(co->gc, v_tmp, v_2316934_25);
+Obj v_2316936_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2316935_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516930_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_2316936_25);
 return;
 }
 case 4:
 {
-Obj _3516925_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj tmp = _3516925_37;
-Obj _3516926_37 = makeCons(co->gc, op, args);
-R[1] = tmp;
+Obj v_2316931_25= co->res;
+Obj v_op = R[1];
+Obj v_args = R[2];
+Obj v_tmp = v_2316931_25;
+Obj v_2316932_25 = makeCons(co->gc, v_op, v_args);
+R[1] = v_tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516926_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), v_2316932_25, v_tmp);
 return;
 }
 case 5:
 {
-Obj _3516916_37= co->res;
-Obj required = R[1];
-Obj op = R[2];
-Obj args = R[3];
-Obj provided = _3516916_37;
-Obj _3516917_37 = PRIM_EQ(required, provided);
-if (True == _3516917_37) {
-Obj _3516918_37 = makeCons(co->gc, op, Nil);
-Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516918_37);
-R[1] = args;
-R[2] = _3516919_37;
+Obj v_2316922_25= co->res;
+Obj v_required = R[1];
+Obj v_op = R[2];
+Obj v_args = R[3];
+Obj v_provided = v_2316922_25;
+Obj v_2316923_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2316923_25) {
+Obj v_2316924_25 = makeCons(co->gc, v_op, Nil);
+Obj v_2316925_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2316924_25);
+R[1] = v_args;
+R[2] = v_2316925_25;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516923_37 = PRIM_GT(required, provided);
-if (True == _3516923_37) {
-Obj _3516924_37 = PRIM_SUB(required, provided);
-R[1] = op;
-R[2] = args;
+Obj v_2316929_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2316929_25) {
+Obj v_2316930_25 = PRIM_SUB(v_required, v_provided);
+R[1] = v_op;
+R[2] = v_args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516924_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2316930_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8374,32 +8383,32 @@ return;
 }
 case 6:
 {
-Obj _3516915_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj required = _3516915_37;
-R[1] = required;
-R[2] = op;
-R[3] = args;
+Obj v_2316921_25= co->res;
+Obj v_op = R[1];
+Obj v_args = R[2];
+Obj v_required = v_2316921_25;
+R[1] = v_required;
+R[2] = v_op;
+R[3] = v_args;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
 return;
 }
 case 7:
 {
-Obj _3516914_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj _3516634_37 = R[3];
-if (True == _3516914_37) {
-R[1] = op;
-R[2] = args;
+Obj v_2316920_25= co->res;
+Obj v_op = R[1];
+Obj v_args = R[2];
+Obj v_2316640_25 = R[3];
+if (True == v_2316920_25) {
+R[1] = v_op;
+R[2] = v_args;
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, v_2316640_25);
 return;
 }
 }
@@ -8416,9 +8425,9 @@ return;
 }
 case 1:
 {
-Obj _3516910_37= co->res;
+Obj v_2316916_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516910_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2316916_25, closureRef(R[0], 2));
 return;
 }
 }
@@ -8428,18 +8437,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516618_37 = R[1];
-Obj _3516619_37 = R[2];
-Obj _3516898_37 = PRIM_EQ(MAKE_NUMBER(0), _3516618_37);
-if (True == _3516898_37) {
-coraReturn(co, _3516619_37);
+Obj v_2316624_25 = R[1];
+Obj v_2316625_25 = R[2];
+Obj v_2316904_25 = PRIM_EQ(MAKE_NUMBER(0), v_2316624_25);
+if (True == v_2316904_25) {
+coraReturn(co, v_2316625_25);
 return;
 } else {
-Obj _3516899_37 = PRIM_SUB(_3516618_37, MAKE_NUMBER(1));
-Obj _3516900_37 = primGenSym(co);
-Obj _3516901_37 = makeCons(co->gc, _3516900_37, _3516619_37);
+Obj v_2316905_25 = PRIM_SUB(v_2316624_25, MAKE_NUMBER(1));
+Obj v_2316906_25 = primGenSym(co);
+Obj v_2316907_25 = makeCons(co->gc, v_2316906_25, v_2316625_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516899_37, _3516901_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2316905_25, v_2316907_25);
 return;
 }
 }
@@ -8450,31 +8459,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj _3516896_37= co->res;
-Obj find = R[1];
-if (True == _3516896_37) {
+Obj v_2316902_25= co->res;
+Obj v_find = R[1];
+if (True == v_2316902_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj _3516895_37= co->res;
-Obj find = _3516895_37;
-R[1] = find;
+Obj v_2316901_25= co->res;
+Obj v_find = v_2316901_25;
+R[1] = v_find;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_find);
 return;
 }
 }
@@ -8484,31 +8493,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj _3516893_37= co->res;
-Obj find = R[1];
-if (True == _3516893_37) {
+Obj v_2316899_25= co->res;
+Obj v_find = R[1];
+if (True == v_2316899_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj _3516892_37= co->res;
-Obj find = _3516892_37;
-R[1] = find;
+Obj v_2316898_25= co->res;
+Obj v_find = v_2316898_25;
+R[1] = v_find;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_find);
 return;
 }
 }
@@ -8518,23 +8527,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj _3516889_37= co->res;
-Obj _3516890_37 = primNot(_3516889_37);
-coraReturn(co, _3516890_37);
+Obj v_2316895_25= co->res;
+Obj v_2316896_25 = primNot(v_2316895_25);
+coraReturn(co, v_2316896_25);
 return;
 }
 case 2:
 {
-Obj _3516888_37= co->res;
+Obj v_2316894_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516888_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_2316894_25);
 return;
 }
 }
@@ -8544,23 +8553,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516614_37 = R[1];
-Obj _3516615_37 = R[2];
-Obj _3516812_37 = PRIM_EQ(Nil, _3516615_37);
-if (True == _3516812_37) {
+Obj v_2316620_25 = R[1];
+Obj v_2316621_25 = R[2];
+Obj v_2316818_25 = PRIM_EQ(Nil, v_2316621_25);
+if (True == v_2316818_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516813_37 = PRIM_ISCONS(_3516615_37);
-if (True == _3516813_37) {
-Obj _3516814_37 = PRIM_CAR(_3516615_37);
-Obj hd = _3516814_37;
-Obj _3516815_37 = PRIM_CDR(_3516615_37);
-Obj tl = _3516815_37;
-R[1] = _3516614_37;
-R[2] = tl;
+Obj v_2316819_25 = PRIM_ISCONS(v_2316621_25);
+if (True == v_2316819_25) {
+Obj v_2316820_25 = PRIM_CAR(v_2316621_25);
+Obj v_hd = v_2316820_25;
+Obj v_2316821_25 = PRIM_CDR(v_2316621_25);
+Obj v_tl = v_2316821_25;
+R[1] = v_2316620_25;
+R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516614_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_2316620_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -8571,13 +8580,13 @@ return;
 }
 case 1:
 {
-Obj _3516816_37= co->res;
-Obj _3516614_37 = R[1];
-Obj tl = R[2];
-Obj _3516817_37 = PRIM_LT(_3516816_37, MAKE_NUMBER(0));
-if (True == _3516817_37) {
+Obj v_2316822_25= co->res;
+Obj v_2316620_25 = R[1];
+Obj v_tl = R[2];
+Obj v_2316823_25 = PRIM_LT(v_2316822_25, MAKE_NUMBER(0));
+if (True == v_2316823_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516614_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v_2316620_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8591,10 +8600,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
+Obj v_x = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), x, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8604,32 +8613,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516608_37 = R[1];
-Obj _3516609_37 = R[2];
-Obj _3516610_37 = R[3];
-Obj _3516801_37 = PRIM_EQ(Nil, _3516610_37);
-if (True == _3516801_37) {
+Obj v_2316614_25 = R[1];
+Obj v_2316615_25 = R[2];
+Obj v_2316616_25 = R[3];
+Obj v_2316807_25 = PRIM_EQ(Nil, v_2316616_25);
+if (True == v_2316807_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516612_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516610_37, _3516608_37, _3516609_37);
-Obj _3516806_37 = PRIM_ISCONS(_3516610_37);
-if (True == _3516806_37) {
-Obj _3516807_37 = PRIM_CAR(_3516610_37);
-Obj a = _3516807_37;
-Obj _3516808_37 = PRIM_CDR(_3516610_37);
-Obj _3516809_37 = PRIM_EQ(_3516609_37, a);
-if (True == _3516809_37) {
-coraReturn(co, _3516608_37);
+Obj v_2316618_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2316616_25, v_2316614_25, v_2316615_25);
+Obj v_2316812_25 = PRIM_ISCONS(v_2316616_25);
+if (True == v_2316812_25) {
+Obj v_2316813_25 = PRIM_CAR(v_2316616_25);
+Obj v_a = v_2316813_25;
+Obj v_2316814_25 = PRIM_CDR(v_2316616_25);
+Obj v_2316815_25 = PRIM_EQ(v_2316615_25, v_a);
+if (True == v_2316815_25) {
+coraReturn(co, v_2316614_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, v_2316618_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, v_2316618_25);
 return;
 }
 }
@@ -8641,14 +8650,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516802_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516802_37) {
-Obj _3516803_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516804_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516804_37;
-Obj _3516805_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2316808_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316808_25) {
+Obj v_2316809_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316810_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2316810_25;
+Obj v_2316811_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516805_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v_2316811_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
@@ -8663,24 +8672,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516603_37 = R[1];
-Obj _3516604_37 = R[2];
-Obj _3516605_37 = R[3];
-Obj _3516795_37 = PRIM_EQ(Nil, _3516605_37);
-if (True == _3516795_37) {
-coraReturn(co, _3516604_37);
+Obj v_2316609_25 = R[1];
+Obj v_2316610_25 = R[2];
+Obj v_2316611_25 = R[3];
+Obj v_2316801_25 = PRIM_EQ(Nil, v_2316611_25);
+if (True == v_2316801_25) {
+coraReturn(co, v_2316610_25);
 return;
 } else {
-Obj _3516796_37 = PRIM_ISCONS(_3516605_37);
-if (True == _3516796_37) {
-Obj _3516797_37 = PRIM_CAR(_3516605_37);
-Obj x = _3516797_37;
-Obj _3516798_37 = PRIM_CDR(_3516605_37);
-Obj y = _3516798_37;
-R[1] = _3516603_37;
-R[2] = y;
+Obj v_2316802_25 = PRIM_ISCONS(v_2316611_25);
+if (True == v_2316802_25) {
+Obj v_2316803_25 = PRIM_CAR(v_2316611_25);
+Obj v_x = v_2316803_25;
+Obj v_2316804_25 = PRIM_CDR(v_2316611_25);
+Obj v_y = v_2316804_25;
+R[1] = v_2316609_25;
+R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516603_37, _3516604_37, x);
+coraCall2(co, v_2316609_25, v_2316610_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
@@ -8691,11 +8700,11 @@ return;
 }
 case 1:
 {
-Obj _3516799_37= co->res;
-Obj _3516603_37 = R[1];
-Obj y = R[2];
+Obj v_2316805_25= co->res;
+Obj v_2316609_25 = R[1];
+Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516603_37, _3516799_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v_2316609_25, v_2316805_25, v_y);
 return;
 }
 }
@@ -8705,44 +8714,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516598_37 = R[1];
-Obj _3516599_37 = R[2];
-Obj _3516780_37 = PRIM_EQ(Nil, _3516599_37);
-if (True == _3516780_37) {
+Obj v_2316604_25 = R[1];
+Obj v_2316605_25 = R[2];
+Obj v_2316786_25 = PRIM_EQ(Nil, v_2316605_25);
+if (True == v_2316786_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516601_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516599_37, _3516598_37);
-Obj _3516784_37 = PRIM_ISCONS(_3516599_37);
-if (True == _3516784_37) {
-Obj _3516785_37 = PRIM_CAR(_3516599_37);
-Obj _3516786_37 = PRIM_ISCONS(_3516785_37);
-if (True == _3516786_37) {
-Obj _3516787_37 = PRIM_CAR(_3516599_37);
-Obj _3516788_37 = PRIM_CAR(_3516787_37);
-Obj x = _3516788_37;
-Obj _3516789_37 = PRIM_CAR(_3516599_37);
-Obj _3516790_37 = PRIM_CDR(_3516789_37);
-Obj y = _3516790_37;
-Obj _3516791_37 = PRIM_CDR(_3516599_37);
-Obj _3516792_37 = PRIM_EQ(_3516598_37, x);
-if (True == _3516792_37) {
-Obj _3516793_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516793_37);
+Obj v_2316607_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2316605_25, v_2316604_25);
+Obj v_2316790_25 = PRIM_ISCONS(v_2316605_25);
+if (True == v_2316790_25) {
+Obj v_2316791_25 = PRIM_CAR(v_2316605_25);
+Obj v_2316792_25 = PRIM_ISCONS(v_2316791_25);
+if (True == v_2316792_25) {
+Obj v_2316793_25 = PRIM_CAR(v_2316605_25);
+Obj v_2316794_25 = PRIM_CAR(v_2316793_25);
+Obj v_x = v_2316794_25;
+Obj v_2316795_25 = PRIM_CAR(v_2316605_25);
+Obj v_2316796_25 = PRIM_CDR(v_2316795_25);
+Obj v_y = v_2316796_25;
+Obj v_2316797_25 = PRIM_CDR(v_2316605_25);
+Obj v_2316798_25 = PRIM_EQ(v_2316604_25, v_x);
+if (True == v_2316798_25) {
+Obj v_2316799_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2316799_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, v_2316607_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, v_2316607_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, v_2316607_25);
 return;
 }
 }
@@ -8754,13 +8763,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516781_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516781_37) {
-Obj _3516782_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516783_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516783_37;
+Obj v_2316787_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316787_25) {
+Obj v_2316788_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316789_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2316789_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index cd061e6..5780cb9 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -577,7 +577,7 @@
 	       (generate-str to "__symbolTable[")
 	       (generate-num to acc)
 	       (generate-str to "] = bindSymbol(co, intern(\"")
-	       (generate-str to (symbol->string sym))
+	       (generate-str to (escape-str (symbol->string sym)))
 	       (generate-str to "\"));\n")
 	       (+ acc 1)))
 	    0 globals)
diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index b34c0a5..4297ce7 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -17,9 +17,15 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 	Obj to = R[1];
 	FILE *out = mustCObj(to);
 	Obj exp = R[2];
-	char s[256];
-	symbolStr(exp, s, 256);
-	if (s[0] >= '0' && s[0] <= '9') {
+	char dest[256];
+	char *s = dest;
+	// The prefix keeps the variables apart from the C keywords and from the
+	// names used by the generated code.
+	if (tag(exp) == TAG_SYMBOL) {
+		s = toCStr(ptr(exp));
+		fprintf(out, "v_");
+	} else {
+		symbolStr(exp, dest, 256);
 		fprintf(out, "v");
 	}
 	for (const char *p = s; *p != 0; p++) {
@@ -29,7 +35,7 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 		} else if (*p == '_') {
 			fprintf(out, "__");
 		} else {
-			fprintf(out, "_%d", *p);
+			fprintf(out, "_%02x", (unsigned char)*p);
 		}
 	}
 	coraReturn(co, Nil);
@@ -62,6 +68,10 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, '"');
 			break;
+		case '\\':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, '\\');
+			break;
 		case '\n':
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, 'n');
@@ -71,7 +81,13 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, 't');
 			break;
 		default:
-			dst = strAppend(dst, c);
+			if (c > 0 && c < 32) {
+				char oct[8];
+				snprintf(oct, sizeof(oct), "\\%03o", c);
+				dst = strCat(dst, cstr(oct));
+			} else {
+				dst = strAppend(dst, c);
+			}
 		};
 	}
 	Obj ret = makeString(co->gc, toCStr(dst), strLen(toStr(dst)));
-- 
2.43.0


From 82ca139144321c8eea96e2db15cb97ba61f75f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 06/53] fix: toplevel code of a compiled file runs in a frame
 large enough for it

It ran in the three slots of load-so's frame, so the variables it saves across
calls overwrote the frames of those calls.
---
 init.c       | 2923 +++++++++++-----------
 lib/toc.c    | 6733 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |    8 +-
 3 files changed, 4877 insertions(+), 4787 deletions(-)

diff --git a/init.c b/init.c
index e87ded8..20e072e 100644
--- a/init.c
+++ b/init.c
@@ -266,6 +266,7 @@ __symbolTable[159] = bindSymbol(co, intern("caar"));
 __symbolTable[160] = bindSymbol(co, intern("cadr"));
 __symbolTable[161] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
+stackAlloc(co, 1);
 co->ctx.fn = clofun95;
 co->ctx.label = 0;
 }
@@ -274,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312472_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v_2312475_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v_2312478_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v_2312481_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v_2312484_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v_2312488_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v_2312493_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v_2312497_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2312505_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2312507_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2312512_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2312546_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2312549_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2312552_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2312555_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2312558_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2312562_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2312567_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2312571_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2312579_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2312581_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2312586_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v_2312992_25= co->res;
-Obj v_2312998_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2313010_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v_2313011_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2313012_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313011_25);
-Obj v_2313013_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313012_25);
-Obj v_2313014_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2313015_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313014_25);
-Obj v_2313016_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313015_25);
-Obj v_2313017_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2313018_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313017_25);
-Obj v_2313019_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313018_25);
-Obj v_2313020_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2313021_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313020_25);
-Obj v_2313022_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313021_25);
-Obj v_2313023_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2313024_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313023_25);
-Obj v_2313025_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313024_25);
-Obj v_2313026_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2313027_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313026_25);
-Obj v_2313028_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313027_25);
-Obj v_2313029_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2313030_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313029_25);
-Obj v_2313031_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313030_25);
-Obj v_2313032_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2313033_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313032_25);
-Obj v_2313034_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313033_25);
-Obj v_2313035_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2313036_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313035_25);
-Obj v_2313037_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313036_25);
-Obj v_2313038_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2313039_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313038_25);
-Obj v_2313040_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313039_25);
-Obj v_2313041_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2313042_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313041_25);
-Obj v_2313043_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313042_25);
-Obj v_2313044_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2313045_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313044_25);
-Obj v_2313046_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313045_25);
-Obj v_2313047_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2313048_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313047_25);
-Obj v_2313049_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313048_25);
-Obj v_2313050_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2313051_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313050_25);
-Obj v_2313052_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313051_25);
-Obj v_2313053_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2313054_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313053_25);
-Obj v_2313055_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313054_25);
-Obj v_2313056_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2313057_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313056_25);
-Obj v_2313058_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313057_25);
-Obj v_2313059_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2313060_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313059_25);
-Obj v_2313061_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313060_25);
-Obj v_2313062_25 = makeCons(co->gc, v_2313061_25, Nil);
-Obj v_2313063_25 = makeCons(co->gc, v_2313058_25, v_2313062_25);
-Obj v_2313064_25 = makeCons(co->gc, v_2313055_25, v_2313063_25);
-Obj v_2313065_25 = makeCons(co->gc, v_2313052_25, v_2313064_25);
-Obj v_2313066_25 = makeCons(co->gc, v_2313049_25, v_2313065_25);
-Obj v_2313067_25 = makeCons(co->gc, v_2313046_25, v_2313066_25);
-Obj v_2313068_25 = makeCons(co->gc, v_2313043_25, v_2313067_25);
-Obj v_2313069_25 = makeCons(co->gc, v_2313040_25, v_2313068_25);
-Obj v_2313070_25 = makeCons(co->gc, v_2313037_25, v_2313069_25);
-Obj v_2313071_25 = makeCons(co->gc, v_2313034_25, v_2313070_25);
-Obj v_2313072_25 = makeCons(co->gc, v_2313031_25, v_2313071_25);
-Obj v_2313073_25 = makeCons(co->gc, v_2313028_25, v_2313072_25);
-Obj v_2313074_25 = makeCons(co->gc, v_2313025_25, v_2313073_25);
-Obj v_2313075_25 = makeCons(co->gc, v_2313022_25, v_2313074_25);
-Obj v_2313076_25 = makeCons(co->gc, v_2313019_25, v_2313075_25);
-Obj v_2313077_25 = makeCons(co->gc, v_2313016_25, v_2313076_25);
-Obj v_2313078_25 = makeCons(co->gc, v_2313013_25, v_2313077_25);
-Obj v_2313079_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313078_25);
-Obj v_2313094_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v_2313098_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v_2313276_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v_2313277_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v_2313278_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2313277_25);
-Obj v_2313279_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2313278_25);
-Obj v_2313280_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2313279_25);
-Obj v_2313281_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2313280_25);
-Obj v_2313282_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2313281_25);
-Obj v_2313283_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2313282_25);
-Obj v_2313284_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2313283_25);
-Obj v_2313285_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2313284_25);
-Obj v_2313286_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2313285_25);
-Obj v_2313287_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313286_25);
-Obj v_2313288_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2313287_25);
-Obj v_2313289_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2313288_25);
-Obj v_2313290_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2313289_25);
-Obj v_2313291_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2313290_25);
-Obj v_2313292_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2313291_25);
-Obj v_2313293_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2313292_25);
-Obj v_2313294_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2313293_25);
-Obj v_2313295_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2313294_25);
-Obj v_2313296_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2313295_25);
-Obj v_2313297_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2313296_25);
-Obj v_2313298_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2313297_25);
-Obj v_2313299_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2313298_25);
-Obj v_2313300_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2313299_25);
-Obj v_2313301_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2313300_25);
-Obj v_2313302_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2313301_25);
-Obj v_2313303_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2313302_25);
-Obj v_2313304_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2313303_25);
-Obj v_2313305_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2313304_25);
-Obj v_2313306_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2313305_25);
-Obj v_2313307_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2313306_25);
-Obj v_2313308_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2313307_25);
-Obj v_2313309_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2313308_25);
-Obj v_2313310_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2313309_25);
-Obj v_2313311_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2313310_25);
-Obj v_2313312_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2313311_25);
-Obj v_2313313_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2313312_25);
-Obj v_2313314_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2313313_25);
-Obj v_2313315_25 = primSet(co, getBinding(co, packageID, 53).name, v_2313314_25);
-Obj v_2313316_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v_2313317_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v_2313318_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v_2313319_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v_2313320_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v_2313321_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v_2313322_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v_2313323_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v_2313324_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v_2313325_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v_2313326_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v_2313327_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v_2313328_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v_2313329_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v_2313330_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v_2313331_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v_2313332_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v_2313333_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v_2313334_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v_2313335_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v_2313336_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v_2313337_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v_2313338_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v_2313339_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v_2313340_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v_2313341_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v_2313342_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v_2313343_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v_2313344_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v_2313345_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v_2313346_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v_2313347_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v_2313348_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v_2313349_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v_2313350_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v_2313351_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v_2313352_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v_2313353_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v_2313354_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v_2313354_25);
+Obj v_2313066_25= co->res;
+Obj v_2313072_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2313084_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v_2313085_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2313086_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313085_25);
+Obj v_2313087_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313086_25);
+Obj v_2313088_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2313089_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313088_25);
+Obj v_2313090_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313089_25);
+Obj v_2313091_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2313092_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313091_25);
+Obj v_2313093_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313092_25);
+Obj v_2313094_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2313095_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313094_25);
+Obj v_2313096_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313095_25);
+Obj v_2313097_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2313098_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313097_25);
+Obj v_2313099_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313098_25);
+Obj v_2313100_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2313101_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313100_25);
+Obj v_2313102_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313101_25);
+Obj v_2313103_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2313104_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313103_25);
+Obj v_2313105_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313104_25);
+Obj v_2313106_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2313107_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313106_25);
+Obj v_2313108_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313107_25);
+Obj v_2313109_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2313110_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313109_25);
+Obj v_2313111_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313110_25);
+Obj v_2313112_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2313113_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313112_25);
+Obj v_2313114_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313113_25);
+Obj v_2313115_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2313116_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313115_25);
+Obj v_2313117_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313116_25);
+Obj v_2313118_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2313119_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313118_25);
+Obj v_2313120_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313119_25);
+Obj v_2313121_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2313122_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313121_25);
+Obj v_2313123_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313122_25);
+Obj v_2313124_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2313125_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313124_25);
+Obj v_2313126_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313125_25);
+Obj v_2313127_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2313128_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313127_25);
+Obj v_2313129_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313128_25);
+Obj v_2313130_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2313131_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313130_25);
+Obj v_2313132_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313131_25);
+Obj v_2313133_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2313134_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313133_25);
+Obj v_2313135_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313134_25);
+Obj v_2313136_25 = makeCons(co->gc, v_2313135_25, Nil);
+Obj v_2313137_25 = makeCons(co->gc, v_2313132_25, v_2313136_25);
+Obj v_2313138_25 = makeCons(co->gc, v_2313129_25, v_2313137_25);
+Obj v_2313139_25 = makeCons(co->gc, v_2313126_25, v_2313138_25);
+Obj v_2313140_25 = makeCons(co->gc, v_2313123_25, v_2313139_25);
+Obj v_2313141_25 = makeCons(co->gc, v_2313120_25, v_2313140_25);
+Obj v_2313142_25 = makeCons(co->gc, v_2313117_25, v_2313141_25);
+Obj v_2313143_25 = makeCons(co->gc, v_2313114_25, v_2313142_25);
+Obj v_2313144_25 = makeCons(co->gc, v_2313111_25, v_2313143_25);
+Obj v_2313145_25 = makeCons(co->gc, v_2313108_25, v_2313144_25);
+Obj v_2313146_25 = makeCons(co->gc, v_2313105_25, v_2313145_25);
+Obj v_2313147_25 = makeCons(co->gc, v_2313102_25, v_2313146_25);
+Obj v_2313148_25 = makeCons(co->gc, v_2313099_25, v_2313147_25);
+Obj v_2313149_25 = makeCons(co->gc, v_2313096_25, v_2313148_25);
+Obj v_2313150_25 = makeCons(co->gc, v_2313093_25, v_2313149_25);
+Obj v_2313151_25 = makeCons(co->gc, v_2313090_25, v_2313150_25);
+Obj v_2313152_25 = makeCons(co->gc, v_2313087_25, v_2313151_25);
+Obj v_2313153_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313152_25);
+Obj v_2313168_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v_2313172_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v_2313350_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v_2313351_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2313352_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2313351_25);
+Obj v_2313353_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2313352_25);
+Obj v_2313354_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2313353_25);
+Obj v_2313355_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2313354_25);
+Obj v_2313356_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2313355_25);
+Obj v_2313357_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2313356_25);
+Obj v_2313358_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2313357_25);
+Obj v_2313359_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2313358_25);
+Obj v_2313360_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2313359_25);
+Obj v_2313361_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313360_25);
+Obj v_2313362_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2313361_25);
+Obj v_2313363_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2313362_25);
+Obj v_2313364_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2313363_25);
+Obj v_2313365_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2313364_25);
+Obj v_2313366_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2313365_25);
+Obj v_2313367_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2313366_25);
+Obj v_2313368_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2313367_25);
+Obj v_2313369_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2313368_25);
+Obj v_2313370_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2313369_25);
+Obj v_2313371_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2313370_25);
+Obj v_2313372_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2313371_25);
+Obj v_2313373_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2313372_25);
+Obj v_2313374_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2313373_25);
+Obj v_2313375_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2313374_25);
+Obj v_2313376_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2313375_25);
+Obj v_2313377_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2313376_25);
+Obj v_2313378_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2313377_25);
+Obj v_2313379_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2313378_25);
+Obj v_2313380_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2313379_25);
+Obj v_2313381_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2313380_25);
+Obj v_2313382_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2313381_25);
+Obj v_2313383_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2313382_25);
+Obj v_2313384_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2313383_25);
+Obj v_2313385_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2313384_25);
+Obj v_2313386_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2313385_25);
+Obj v_2313387_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2313386_25);
+Obj v_2313388_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2313387_25);
+Obj v_2313389_25 = primSet(co, getBinding(co, packageID, 53).name, v_2313388_25);
+Obj v_2313390_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2313391_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2313392_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2313393_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2313394_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2313395_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2313396_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v_2313397_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v_2313398_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v_2313399_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v_2313400_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2313401_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2313402_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2313403_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2313404_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2313405_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2313406_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2313407_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2313408_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2313409_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2313410_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2313411_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2313412_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2313413_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2313414_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2313415_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2313416_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2313417_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2313418_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2313419_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2313420_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2313421_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v_2313422_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2313423_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v_2313424_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2313425_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2313426_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2313427_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2313428_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2313428_25);
 return;
 }
 case 2:
 {
-Obj v_2312942_25= co->res;
-Obj v_2312971_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v_2312972_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2313016_25= co->res;
+Obj v_2313045_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v_2313046_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2312925_25= co->res;
-Obj v_2312939_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2312999_25= co->res;
+Obj v_2313013_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v_2312903_25= co->res;
-Obj v_2312923_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2312977_25= co->res;
+Obj v_2312997_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v_2312872_25= co->res;
-Obj v_2312873_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v_2312874_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v_2312877_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v_2312901_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v_2312946_25= co->res;
+Obj v_2312947_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v_2312948_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v_2312951_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v_2312975_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v_2312764_25= co->res;
-Obj v_2312816_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v_2312817_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2312822_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v_2312826_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v_2312827_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2312835_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v_2312836_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2312842_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2312853_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v_2312859_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v_2312838_25= co->res;
+Obj v_2312890_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v_2312891_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2312896_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v_2312900_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v_2312901_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2312909_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v_2312910_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2312916_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2312927_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2312933_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v_2312659_25= co->res;
-Obj v_2312681_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v_2312714_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v_2312727_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v_2312749_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v_2312763_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v_2312733_25= co->res;
+Obj v_2312755_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2312788_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2312801_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2312823_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2312837_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v_2312644_25= co->res;
-Obj v_2312647_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2312657_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v_2312718_25= co->res;
+Obj v_2312721_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2312731_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v_2312630_25= co->res;
-Obj v_2312642_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v_2312704_25= co->res;
+Obj v_2312716_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v_2312616_25= co->res;
-Obj v_2312628_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v_2312690_25= co->res;
+Obj v_2312702_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v_2312602_25= co->res;
+Obj v_2312676_25= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v_2312580_25= co->res;
-Obj v_2312585_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v_2312588_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v_2312600_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v_2312654_25= co->res;
+Obj v_2312659_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2312662_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2312674_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v_2312570_25= co->res;
+Obj v_2312644_25= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v_2312568_25= co->res;
+Obj v_2312642_25= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v_2312513_25= co->res;
-Obj v_2312514_25 = primSet(co, getBinding(co, packageID, 149).name, v_2312513_25);
-Obj v_2312520_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v_2312521_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v_2312522_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v_2312523_25 = primGenSym(co);
-Obj v_2312524_25 = primSet(co, getBinding(co, packageID, 145).name, v_2312523_25);
-Obj v_2312528_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v_2312537_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v_2312538_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v_2312555_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v_2312556_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v_2312567_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v_2312587_25= co->res;
+Obj v_2312588_25 = primSet(co, getBinding(co, packageID, 149).name, v_2312587_25);
+Obj v_2312594_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2312595_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2312596_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v_2312597_25 = primGenSym(co);
+Obj v_2312598_25 = primSet(co, getBinding(co, packageID, 145).name, v_2312597_25);
+Obj v_2312602_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2312611_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2312612_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2312629_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2312630_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v_2312641_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -594,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312443_25 = R[1];
-Obj v_2312444_25 = R[2];
-Obj v_2312445_25 = R[3];
-Obj v_2312446_25 = R[4];
-Obj v_2312467_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2312443_25, v_2312444_25, v_2312445_25, v_2312446_25);
-R[1] = v_2312446_25;
-R[2] = v_2312467_25;
+Obj v_2312517_25 = R[1];
+Obj v_2312518_25 = R[2];
+Obj v_2312519_25 = R[3];
+Obj v_2312520_25 = R[4];
+Obj v_2312541_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2312517_25, v_2312518_25, v_2312519_25, v_2312520_25);
+R[1] = v_2312520_25;
+R[2] = v_2312541_25;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2312446_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2312520_25);
 return;
 }
 case 1:
 {
-Obj v_2313275_25= co->res;
-Obj v_2312467_25 = R[1];
-if (True == v_2313275_25) {
+Obj v_2313349_25= co->res;
+Obj v_2312541_25 = R[1];
+if (True == v_2313349_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312467_25, True);
+coraCall1(co, v_2312541_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312467_25, False);
+coraCall1(co, v_2312541_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313274_25= co->res;
-Obj v_2312446_25 = R[1];
-Obj v_2312467_25 = R[2];
-if (True == v_2313274_25) {
+Obj v_2313348_25= co->res;
+Obj v_2312520_25 = R[1];
+Obj v_2312541_25 = R[2];
+if (True == v_2313348_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312467_25, True);
+coraCall1(co, v_2312541_25, True);
 return;
 } else {
-R[1] = v_2312467_25;
+R[1] = v_2312541_25;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312446_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312520_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2313272_25= co->res;
-Obj v_2312446_25 = R[1];
-Obj v_2312467_25 = R[2];
-if (True == v_2313272_25) {
+Obj v_2313346_25= co->res;
+Obj v_2312520_25 = R[1];
+Obj v_2312541_25 = R[2];
+if (True == v_2313346_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312467_25, True);
+coraCall1(co, v_2312541_25, True);
 return;
 } else {
-Obj v_2313273_25 = primIsString(v_2312446_25);
-if (True == v_2313273_25) {
+Obj v_2313347_25 = primIsString(v_2312520_25);
+if (True == v_2313347_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312467_25, True);
+coraCall1(co, v_2312541_25, True);
 return;
 } else {
-R[1] = v_2312446_25;
-R[2] = v_2312467_25;
+R[1] = v_2312520_25;
+R[2] = v_2312541_25;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2312446_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2312520_25);
 return;
 }
 }
@@ -666,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312468_25 = R[1];
-if (True == v_2312468_25) {
+Obj v_2312542_25 = R[1];
+if (True == v_2312542_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v_2312448_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2313260_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2313260_25) {
-Obj v_2313261_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2313262_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2313261_25);
-if (True == v_2313262_25) {
-Obj v_2313263_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313264_25 = PRIM_ISCONS(v_2313263_25);
-if (True == v_2313264_25) {
-Obj v_2313265_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313266_25 = PRIM_CAR(v_2313265_25);
-Obj v_x = v_2313266_25;
-Obj v_2313267_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313268_25 = PRIM_CDR(v_2313267_25);
-Obj v_2313269_25 = PRIM_EQ(Nil, v_2313268_25);
-if (True == v_2313269_25) {
-Obj v_2313270_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2313271_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313270_25);
-coraReturn(co, v_2313271_25);
+Obj v_2312522_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2313334_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2313334_25) {
+Obj v_2313335_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2313336_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2313335_25);
+if (True == v_2313336_25) {
+Obj v_2313337_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313338_25 = PRIM_ISCONS(v_2313337_25);
+if (True == v_2313338_25) {
+Obj v_2313339_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313340_25 = PRIM_CAR(v_2313339_25);
+Obj v_x = v_2313340_25;
+Obj v_2313341_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313342_25 = PRIM_CDR(v_2313341_25);
+Obj v_2313343_25 = PRIM_EQ(Nil, v_2313342_25);
+if (True == v_2313343_25) {
+Obj v_2313344_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2313345_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313344_25);
+coraReturn(co, v_2313345_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312448_25);
+coraCall0(co, v_2312522_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312448_25);
+coraCall0(co, v_2312522_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312448_25);
+coraCall0(co, v_2312522_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312448_25);
+coraCall0(co, v_2312522_25);
 return;
 }
 }
@@ -720,37 +721,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313099_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2313099_25) {
+Obj v_2313173_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2313173_25) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2312450_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313238_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313238_25) {
-Obj v_2313239_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313240_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2313239_25);
-if (True == v_2313240_25) {
-Obj v_2313241_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313242_25 = PRIM_ISCONS(v_2313241_25);
-if (True == v_2313242_25) {
-Obj v_2313243_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313244_25 = PRIM_CAR(v_2313243_25);
-Obj v_args = v_2313244_25;
-Obj v_2313245_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313246_25 = PRIM_CDR(v_2313245_25);
-Obj v_2313247_25 = PRIM_ISCONS(v_2313246_25);
-if (True == v_2313247_25) {
-Obj v_2313248_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313249_25 = PRIM_CDR(v_2313248_25);
-Obj v_2313250_25 = PRIM_CAR(v_2313249_25);
-Obj v_body = v_2313250_25;
-Obj v_2313251_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313252_25 = PRIM_CDR(v_2313251_25);
-Obj v_2313253_25 = PRIM_CDR(v_2313252_25);
-Obj v_2313254_25 = PRIM_EQ(Nil, v_2313253_25);
-if (True == v_2313254_25) {
+Obj v_2312524_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313312_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313312_25) {
+Obj v_2313313_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313314_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2313313_25);
+if (True == v_2313314_25) {
+Obj v_2313315_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313316_25 = PRIM_ISCONS(v_2313315_25);
+if (True == v_2313316_25) {
+Obj v_2313317_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313318_25 = PRIM_CAR(v_2313317_25);
+Obj v_args = v_2313318_25;
+Obj v_2313319_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313320_25 = PRIM_CDR(v_2313319_25);
+Obj v_2313321_25 = PRIM_ISCONS(v_2313320_25);
+if (True == v_2313321_25) {
+Obj v_2313322_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313323_25 = PRIM_CDR(v_2313322_25);
+Obj v_2313324_25 = PRIM_CAR(v_2313323_25);
+Obj v_body = v_2313324_25;
+Obj v_2313325_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313326_25 = PRIM_CDR(v_2313325_25);
+Obj v_2313327_25 = PRIM_CDR(v_2313326_25);
+Obj v_2313328_25 = PRIM_EQ(Nil, v_2313327_25);
+if (True == v_2313328_25) {
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun92, 4, R);
@@ -758,35 +759,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312450_25);
+coraCall0(co, v_2312524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312450_25);
+coraCall0(co, v_2312524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312450_25);
+coraCall0(co, v_2312524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312450_25);
+coraCall0(co, v_2312524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312450_25);
+coraCall0(co, v_2312524_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313101_25= co->res;
-if (True == v_2313101_25) {
+Obj v_2313175_25= co->res;
+if (True == v_2313175_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -797,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj v_2313100_25= co->res;
-if (True == v_2313100_25) {
+Obj v_2313174_25= co->res;
+if (True == v_2313174_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -809,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj v_2313256_25= co->res;
+Obj v_2313330_25= co->res;
 Obj v_args = R[1];
-Obj v_2313257_25 = makeCons(co->gc, v_2313256_25, Nil);
-Obj v_2313258_25 = makeCons(co->gc, v_args, v_2313257_25);
-Obj v_2313259_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313258_25);
-coraReturn(co, v_2313259_25);
+Obj v_2313331_25 = makeCons(co->gc, v_2313330_25, Nil);
+Obj v_2313332_25 = makeCons(co->gc, v_args, v_2313331_25);
+Obj v_2313333_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313332_25);
+coraReturn(co, v_2313333_25);
 return;
 }
 case 4:
 {
-Obj v_2313255_25= co->res;
+Obj v_2313329_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313255_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313329_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
@@ -834,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312451_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313194_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313194_25) {
-Obj v_2313195_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313196_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313195_25);
-if (True == v_2313196_25) {
-Obj v_2313197_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313198_25 = PRIM_ISCONS(v_2313197_25);
-if (True == v_2313198_25) {
-Obj v_2313199_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313200_25 = PRIM_CAR(v_2313199_25);
-Obj v_2313201_25 = PRIM_ISCONS(v_2313200_25);
-if (True == v_2313201_25) {
-Obj v_2313202_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313203_25 = PRIM_CAR(v_2313202_25);
-Obj v_2313204_25 = PRIM_CAR(v_2313203_25);
-Obj v_2313205_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313204_25);
-if (True == v_2313205_25) {
-Obj v_2313206_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313207_25 = PRIM_CAR(v_2313206_25);
-Obj v_2313208_25 = PRIM_CDR(v_2313207_25);
-Obj v_2313209_25 = PRIM_ISCONS(v_2313208_25);
-if (True == v_2313209_25) {
-Obj v_2313210_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313211_25 = PRIM_CAR(v_2313210_25);
-Obj v_2313212_25 = PRIM_CDR(v_2313211_25);
-Obj v_2313213_25 = PRIM_CAR(v_2313212_25);
-Obj v_pkg = v_2313213_25;
-Obj v_2313214_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313215_25 = PRIM_CAR(v_2313214_25);
-Obj v_2313216_25 = PRIM_CDR(v_2313215_25);
-Obj v_2313217_25 = PRIM_CDR(v_2313216_25);
-Obj v_2313218_25 = PRIM_EQ(Nil, v_2313217_25);
-if (True == v_2313218_25) {
-Obj v_2313219_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313220_25 = PRIM_CDR(v_2313219_25);
-Obj v_2313221_25 = PRIM_ISCONS(v_2313220_25);
-if (True == v_2313221_25) {
-Obj v_2313222_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313223_25 = PRIM_CDR(v_2313222_25);
-Obj v_2313224_25 = PRIM_CAR(v_2313223_25);
-Obj v_y = v_2313224_25;
-Obj v_2313225_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313226_25 = PRIM_CDR(v_2313225_25);
-Obj v_2313227_25 = PRIM_CDR(v_2313226_25);
-Obj v_2313228_25 = PRIM_EQ(Nil, v_2313227_25);
-if (True == v_2313228_25) {
-Obj v_2313229_25 = primIsString(v_pkg);
-if (True == v_2313229_25) {
-Obj v_2313230_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2313231_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313230_25);
+Obj v_2312525_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313268_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313268_25) {
+Obj v_2313269_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313270_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313269_25);
+if (True == v_2313270_25) {
+Obj v_2313271_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313272_25 = PRIM_ISCONS(v_2313271_25);
+if (True == v_2313272_25) {
+Obj v_2313273_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313274_25 = PRIM_CAR(v_2313273_25);
+Obj v_2313275_25 = PRIM_ISCONS(v_2313274_25);
+if (True == v_2313275_25) {
+Obj v_2313276_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313277_25 = PRIM_CAR(v_2313276_25);
+Obj v_2313278_25 = PRIM_CAR(v_2313277_25);
+Obj v_2313279_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313278_25);
+if (True == v_2313279_25) {
+Obj v_2313280_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313281_25 = PRIM_CAR(v_2313280_25);
+Obj v_2313282_25 = PRIM_CDR(v_2313281_25);
+Obj v_2313283_25 = PRIM_ISCONS(v_2313282_25);
+if (True == v_2313283_25) {
+Obj v_2313284_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313285_25 = PRIM_CAR(v_2313284_25);
+Obj v_2313286_25 = PRIM_CDR(v_2313285_25);
+Obj v_2313287_25 = PRIM_CAR(v_2313286_25);
+Obj v_pkg = v_2313287_25;
+Obj v_2313288_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313289_25 = PRIM_CAR(v_2313288_25);
+Obj v_2313290_25 = PRIM_CDR(v_2313289_25);
+Obj v_2313291_25 = PRIM_CDR(v_2313290_25);
+Obj v_2313292_25 = PRIM_EQ(Nil, v_2313291_25);
+if (True == v_2313292_25) {
+Obj v_2313293_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313294_25 = PRIM_CDR(v_2313293_25);
+Obj v_2313295_25 = PRIM_ISCONS(v_2313294_25);
+if (True == v_2313295_25) {
+Obj v_2313296_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313297_25 = PRIM_CDR(v_2313296_25);
+Obj v_2313298_25 = PRIM_CAR(v_2313297_25);
+Obj v_y = v_2313298_25;
+Obj v_2313299_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313300_25 = PRIM_CDR(v_2313299_25);
+Obj v_2313301_25 = PRIM_CDR(v_2313300_25);
+Obj v_2313302_25 = PRIM_EQ(Nil, v_2313301_25);
+if (True == v_2313302_25) {
+Obj v_2313303_25 = primIsString(v_pkg);
+if (True == v_2313303_25) {
+Obj v_2313304_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2313305_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313304_25);
 R[1] = v_pkg;
 R[2] = v_y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2313231_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2313305_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312451_25);
+coraCall0(co, v_2312525_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313234_25= co->res;
-Obj v_2313232_25 = R[1];
-Obj v_2313235_25 = makeCons(co->gc, v_2313234_25, Nil);
-Obj v_2313236_25 = makeCons(co->gc, v_2313232_25, v_2313235_25);
-Obj v_2313237_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313236_25);
-coraReturn(co, v_2313237_25);
+Obj v_2313308_25= co->res;
+Obj v_2313306_25 = R[1];
+Obj v_2313309_25 = makeCons(co->gc, v_2313308_25, Nil);
+Obj v_2313310_25 = makeCons(co->gc, v_2313306_25, v_2313309_25);
+Obj v_2313311_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313310_25);
+coraReturn(co, v_2313311_25);
 return;
 }
 case 2:
 {
-Obj v_2313232_25= co->res;
+Obj v_2313306_25= co->res;
 Obj v_pkg = R[1];
 Obj v_y = R[2];
-Obj v_2313233_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
-R[1] = v_2313232_25;
+Obj v_2313307_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2313306_25;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2313233_25, v_y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2313307_25, v_y);
 return;
 }
 }
@@ -969,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312452_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313186_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313186_25) {
-Obj v_2313187_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2313187_25;
-Obj v_2313188_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2313188_25;
-Obj v_2312469_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2312452_25);
-Obj v_2313192_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
-if (True == v_2313192_25) {
+Obj v_2312526_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313260_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313260_25) {
+Obj v_2313261_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2313261_25;
+Obj v_2313262_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2313262_25;
+Obj v_2312543_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2312526_25);
+Obj v_2313266_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
+if (True == v_2313266_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312469_25, True);
+coraCall1(co, v_2312543_25, True);
 return;
 } else {
-Obj v_2313193_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
-if (True == v_2313193_25) {
+Obj v_2313267_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2313267_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312469_25, True);
+coraCall1(co, v_2312543_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312469_25, False);
+coraCall1(co, v_2312543_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312452_25);
+coraCall0(co, v_2312526_25);
 return;
 }
 }
@@ -1007,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312470_25 = R[1];
-if (True == v_2312470_25) {
+Obj v_2312544_25 = R[1];
+if (True == v_2312544_25) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1020,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj v_2313190_25= co->res;
-Obj v_2313191_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313190_25);
-coraReturn(co, v_2313191_25);
+Obj v_2313264_25= co->res;
+Obj v_2313265_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313264_25);
+coraReturn(co, v_2313265_25);
 return;
 }
 case 2:
 {
-Obj v_2313189_25= co->res;
+Obj v_2313263_25= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313189_25, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313263_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -1039,42 +1040,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312453_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313153_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313153_25) {
-Obj v_2313154_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313155_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313154_25);
-if (True == v_2313155_25) {
-Obj v_2313156_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313157_25 = PRIM_ISCONS(v_2313156_25);
-if (True == v_2313157_25) {
-Obj v_2313158_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313159_25 = PRIM_CAR(v_2313158_25);
-Obj v_a = v_2313159_25;
-Obj v_2313160_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313161_25 = PRIM_CDR(v_2313160_25);
-Obj v_2313162_25 = PRIM_ISCONS(v_2313161_25);
-if (True == v_2313162_25) {
-Obj v_2313163_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313164_25 = PRIM_CDR(v_2313163_25);
-Obj v_2313165_25 = PRIM_CAR(v_2313164_25);
-Obj v_b = v_2313165_25;
-Obj v_2313166_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313167_25 = PRIM_CDR(v_2313166_25);
-Obj v_2313168_25 = PRIM_CDR(v_2313167_25);
-Obj v_2313169_25 = PRIM_ISCONS(v_2313168_25);
-if (True == v_2313169_25) {
-Obj v_2313170_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313171_25 = PRIM_CDR(v_2313170_25);
-Obj v_2313172_25 = PRIM_CDR(v_2313171_25);
-Obj v_2313173_25 = PRIM_CAR(v_2313172_25);
-Obj v_c = v_2313173_25;
-Obj v_2313174_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313175_25 = PRIM_CDR(v_2313174_25);
-Obj v_2313176_25 = PRIM_CDR(v_2313175_25);
-Obj v_2313177_25 = PRIM_CDR(v_2313176_25);
-Obj v_2313178_25 = PRIM_EQ(Nil, v_2313177_25);
-if (True == v_2313178_25) {
+Obj v_2312527_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313227_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313227_25) {
+Obj v_2313228_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313229_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313228_25);
+if (True == v_2313229_25) {
+Obj v_2313230_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313231_25 = PRIM_ISCONS(v_2313230_25);
+if (True == v_2313231_25) {
+Obj v_2313232_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313233_25 = PRIM_CAR(v_2313232_25);
+Obj v_a = v_2313233_25;
+Obj v_2313234_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313235_25 = PRIM_CDR(v_2313234_25);
+Obj v_2313236_25 = PRIM_ISCONS(v_2313235_25);
+if (True == v_2313236_25) {
+Obj v_2313237_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313238_25 = PRIM_CDR(v_2313237_25);
+Obj v_2313239_25 = PRIM_CAR(v_2313238_25);
+Obj v_b = v_2313239_25;
+Obj v_2313240_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313241_25 = PRIM_CDR(v_2313240_25);
+Obj v_2313242_25 = PRIM_CDR(v_2313241_25);
+Obj v_2313243_25 = PRIM_ISCONS(v_2313242_25);
+if (True == v_2313243_25) {
+Obj v_2313244_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313245_25 = PRIM_CDR(v_2313244_25);
+Obj v_2313246_25 = PRIM_CDR(v_2313245_25);
+Obj v_2313247_25 = PRIM_CAR(v_2313246_25);
+Obj v_c = v_2313247_25;
+Obj v_2313248_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313249_25 = PRIM_CDR(v_2313248_25);
+Obj v_2313250_25 = PRIM_CDR(v_2313249_25);
+Obj v_2313251_25 = PRIM_CDR(v_2313250_25);
+Obj v_2313252_25 = PRIM_EQ(Nil, v_2313251_25);
+if (True == v_2313252_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun88, 2, R);
@@ -1082,57 +1083,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312453_25);
+coraCall0(co, v_2312527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312453_25);
+coraCall0(co, v_2312527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312453_25);
+coraCall0(co, v_2312527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312453_25);
+coraCall0(co, v_2312527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312453_25);
+coraCall0(co, v_2312527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312453_25);
+coraCall0(co, v_2312527_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313181_25= co->res;
-Obj v_2313179_25 = R[1];
+Obj v_2313255_25= co->res;
+Obj v_2313253_25 = R[1];
 Obj v_a = R[2];
-Obj v_2313182_25 = makeCons(co->gc, v_2313181_25, Nil);
-Obj v_2313183_25 = makeCons(co->gc, v_2313179_25, v_2313182_25);
-Obj v_2313184_25 = makeCons(co->gc, v_a, v_2313183_25);
-Obj v_2313185_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313184_25);
-coraReturn(co, v_2313185_25);
+Obj v_2313256_25 = makeCons(co->gc, v_2313255_25, Nil);
+Obj v_2313257_25 = makeCons(co->gc, v_2313253_25, v_2313256_25);
+Obj v_2313258_25 = makeCons(co->gc, v_a, v_2313257_25);
+Obj v_2313259_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313258_25);
+coraReturn(co, v_2313259_25);
 return;
 }
 case 2:
 {
-Obj v_2313179_25= co->res;
+Obj v_2313253_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2313180_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2313179_25;
+Obj v_2313254_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2313253_25;
 R[2] = v_a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313180_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313254_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
@@ -1142,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312454_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313127_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2313127_25) {
-Obj v_2313128_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2313129_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313128_25);
-if (True == v_2313129_25) {
-Obj v_2313130_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313131_25 = PRIM_ISCONS(v_2313130_25);
-if (True == v_2313131_25) {
-Obj v_2313132_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313133_25 = PRIM_CAR(v_2313132_25);
-Obj v_path = v_2313133_25;
-Obj v_2313134_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313135_25 = PRIM_CDR(v_2313134_25);
-Obj v_2313136_25 = PRIM_ISCONS(v_2313135_25);
-if (True == v_2313136_25) {
-Obj v_2313137_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313138_25 = PRIM_CDR(v_2313137_25);
-Obj v_2313139_25 = PRIM_CAR(v_2313138_25);
-Obj v_import = v_2313139_25;
-Obj v_2313140_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313141_25 = PRIM_CDR(v_2313140_25);
-Obj v_2313142_25 = PRIM_CDR(v_2313141_25);
-Obj v_2313143_25 = PRIM_ISCONS(v_2313142_25);
-if (True == v_2313143_25) {
-Obj v_2313144_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313145_25 = PRIM_CDR(v_2313144_25);
-Obj v_2313146_25 = PRIM_CDR(v_2313145_25);
-Obj v_2313147_25 = PRIM_CAR(v_2313146_25);
-Obj v_body = v_2313147_25;
-Obj v_2313148_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313149_25 = PRIM_CDR(v_2313148_25);
-Obj v_2313150_25 = PRIM_CDR(v_2313149_25);
-Obj v_2313151_25 = PRIM_CDR(v_2313150_25);
-Obj v_2313152_25 = PRIM_EQ(Nil, v_2313151_25);
-if (True == v_2313152_25) {
+Obj v_2312528_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313201_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2313201_25) {
+Obj v_2313202_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2313203_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313202_25);
+if (True == v_2313203_25) {
+Obj v_2313204_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313205_25 = PRIM_ISCONS(v_2313204_25);
+if (True == v_2313205_25) {
+Obj v_2313206_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313207_25 = PRIM_CAR(v_2313206_25);
+Obj v_path = v_2313207_25;
+Obj v_2313208_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313209_25 = PRIM_CDR(v_2313208_25);
+Obj v_2313210_25 = PRIM_ISCONS(v_2313209_25);
+if (True == v_2313210_25) {
+Obj v_2313211_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313212_25 = PRIM_CDR(v_2313211_25);
+Obj v_2313213_25 = PRIM_CAR(v_2313212_25);
+Obj v_import = v_2313213_25;
+Obj v_2313214_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313215_25 = PRIM_CDR(v_2313214_25);
+Obj v_2313216_25 = PRIM_CDR(v_2313215_25);
+Obj v_2313217_25 = PRIM_ISCONS(v_2313216_25);
+if (True == v_2313217_25) {
+Obj v_2313218_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313219_25 = PRIM_CDR(v_2313218_25);
+Obj v_2313220_25 = PRIM_CDR(v_2313219_25);
+Obj v_2313221_25 = PRIM_CAR(v_2313220_25);
+Obj v_body = v_2313221_25;
+Obj v_2313222_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313223_25 = PRIM_CDR(v_2313222_25);
+Obj v_2313224_25 = PRIM_CDR(v_2313223_25);
+Obj v_2313225_25 = PRIM_CDR(v_2313224_25);
+Obj v_2313226_25 = PRIM_EQ(Nil, v_2313225_25);
+if (True == v_2313226_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312454_25);
+coraCall0(co, v_2312528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312454_25);
+coraCall0(co, v_2312528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312454_25);
+coraCall0(co, v_2312528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312454_25);
+coraCall0(co, v_2312528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312454_25);
+coraCall0(co, v_2312528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312454_25);
+coraCall0(co, v_2312528_25);
 return;
 }
 }
@@ -1219,79 +1220,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312455_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v_2313103_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313103_25) {
-Obj v_2313104_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313105_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313104_25);
-if (True == v_2313105_25) {
-Obj v_2313106_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313107_25 = PRIM_ISCONS(v_2313106_25);
-if (True == v_2313107_25) {
-Obj v_2313108_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313109_25 = PRIM_CAR(v_2313108_25);
-Obj v_var = v_2313109_25;
-Obj v_2313110_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313111_25 = PRIM_CDR(v_2313110_25);
-Obj v_2313112_25 = PRIM_ISCONS(v_2313111_25);
-if (True == v_2313112_25) {
-Obj v_2313113_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313114_25 = PRIM_CDR(v_2313113_25);
-Obj v_2313115_25 = PRIM_CAR(v_2313114_25);
-Obj v_val = v_2313115_25;
-Obj v_2313116_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313117_25 = PRIM_CDR(v_2313116_25);
-Obj v_2313118_25 = PRIM_CDR(v_2313117_25);
-Obj v_2313119_25 = PRIM_EQ(Nil, v_2313118_25);
-if (True == v_2313119_25) {
+Obj v_2312529_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2313177_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313177_25) {
+Obj v_2313178_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313179_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313178_25);
+if (True == v_2313179_25) {
+Obj v_2313180_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313181_25 = PRIM_ISCONS(v_2313180_25);
+if (True == v_2313181_25) {
+Obj v_2313182_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313183_25 = PRIM_CAR(v_2313182_25);
+Obj v_var = v_2313183_25;
+Obj v_2313184_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313185_25 = PRIM_CDR(v_2313184_25);
+Obj v_2313186_25 = PRIM_ISCONS(v_2313185_25);
+if (True == v_2313186_25) {
+Obj v_2313187_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313188_25 = PRIM_CDR(v_2313187_25);
+Obj v_2313189_25 = PRIM_CAR(v_2313188_25);
+Obj v_val = v_2313189_25;
+Obj v_2313190_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313191_25 = PRIM_CDR(v_2313190_25);
+Obj v_2313192_25 = PRIM_CDR(v_2313191_25);
+Obj v_2313193_25 = PRIM_EQ(Nil, v_2313192_25);
+if (True == v_2313193_25) {
 R[1] = v_val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312455_25);
+coraCall0(co, v_2312529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312455_25);
+coraCall0(co, v_2312529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312455_25);
+coraCall0(co, v_2312529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312455_25);
+coraCall0(co, v_2312529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312455_25);
+coraCall0(co, v_2312529_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313123_25= co->res;
-Obj v_2313122_25 = R[1];
-Obj v_2313124_25 = makeCons(co->gc, v_2313123_25, Nil);
-Obj v_2313125_25 = makeCons(co->gc, v_2313122_25, v_2313124_25);
-Obj v_2313126_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313125_25);
-coraReturn(co, v_2313126_25);
+Obj v_2313197_25= co->res;
+Obj v_2313196_25 = R[1];
+Obj v_2313198_25 = makeCons(co->gc, v_2313197_25, Nil);
+Obj v_2313199_25 = makeCons(co->gc, v_2313196_25, v_2313198_25);
+Obj v_2313200_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313199_25);
+coraReturn(co, v_2313200_25);
 return;
 }
 case 2:
 {
-Obj v_2313120_25= co->res;
+Obj v_2313194_25= co->res;
 Obj v_val = R[1];
-Obj v_var1 = v_2313120_25;
-Obj v_2313121_25 = makeCons(co->gc, v_var1, Nil);
-Obj v_2313122_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313121_25);
-R[1] = v_2313122_25;
+Obj v_var1 = v_2313194_25;
+Obj v_2313195_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2313196_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313195_25);
+R[1] = v_2313196_25;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
@@ -1309,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj v_2313102_25= co->res;
+Obj v_2313176_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313102_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313176_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -1328,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj v_2313096_25= co->res;
-Obj v_2313097_25 = primNot(v_2313096_25);
-coraReturn(co, v_2313097_25);
+Obj v_2313170_25= co->res;
+Obj v_2313171_25 = primNot(v_2313170_25);
+coraReturn(co, v_2313171_25);
 return;
 }
 case 2:
 {
-Obj v_2313095_25= co->res;
+Obj v_2313169_25= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313095_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313169_25);
 return;
 }
 }
@@ -1347,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312438_25 = R[1];
-Obj v_2312439_25 = R[2];
-Obj v_2313080_25 = PRIM_EQ(Nil, v_2312439_25);
-if (True == v_2313080_25) {
+Obj v_2312512_25 = R[1];
+Obj v_2312513_25 = R[2];
+Obj v_2313154_25 = PRIM_EQ(Nil, v_2312513_25);
+if (True == v_2313154_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2312441_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2312439_25, v_2312438_25);
-Obj v_2313084_25 = PRIM_ISCONS(v_2312439_25);
-if (True == v_2313084_25) {
-Obj v_2313085_25 = PRIM_CAR(v_2312439_25);
-Obj v_2313086_25 = PRIM_ISCONS(v_2313085_25);
-if (True == v_2313086_25) {
-Obj v_2313087_25 = PRIM_CAR(v_2312439_25);
-Obj v_2313088_25 = PRIM_CAR(v_2313087_25);
-Obj v_x = v_2313088_25;
-Obj v_2313089_25 = PRIM_CAR(v_2312439_25);
-Obj v_2313090_25 = PRIM_CDR(v_2313089_25);
-Obj v_y = v_2313090_25;
-Obj v_2313091_25 = PRIM_CDR(v_2312439_25);
-Obj v_2313092_25 = PRIM_EQ(v_2312438_25, v_x);
-if (True == v_2313092_25) {
-Obj v_2313093_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2313093_25);
+Obj v_2312515_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2312513_25, v_2312512_25);
+Obj v_2313158_25 = PRIM_ISCONS(v_2312513_25);
+if (True == v_2313158_25) {
+Obj v_2313159_25 = PRIM_CAR(v_2312513_25);
+Obj v_2313160_25 = PRIM_ISCONS(v_2313159_25);
+if (True == v_2313160_25) {
+Obj v_2313161_25 = PRIM_CAR(v_2312513_25);
+Obj v_2313162_25 = PRIM_CAR(v_2313161_25);
+Obj v_x = v_2313162_25;
+Obj v_2313163_25 = PRIM_CAR(v_2312513_25);
+Obj v_2313164_25 = PRIM_CDR(v_2313163_25);
+Obj v_y = v_2313164_25;
+Obj v_2313165_25 = PRIM_CDR(v_2312513_25);
+Obj v_2313166_25 = PRIM_EQ(v_2312512_25, v_x);
+if (True == v_2313166_25) {
+Obj v_2313167_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2313167_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312441_25);
+coraCall0(co, v_2312515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312441_25);
+coraCall0(co, v_2312515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312441_25);
+coraCall0(co, v_2312515_25);
 return;
 }
 }
@@ -1396,11 +1397,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313081_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313081_25) {
-Obj v_2313082_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313083_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313083_25;
+Obj v_2313155_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313155_25) {
+Obj v_2313156_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313157_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313157_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
@@ -1417,24 +1418,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312433_25 = R[1];
-Obj v_2312434_25 = R[2];
-Obj v_2312435_25 = R[3];
-Obj v_2312999_25 = PRIM_EQ(Nil, v_2312435_25);
-if (True == v_2312999_25) {
+Obj v_2312507_25 = R[1];
+Obj v_2312508_25 = R[2];
+Obj v_2312509_25 = R[3];
+Obj v_2313073_25 = PRIM_EQ(Nil, v_2312509_25);
+if (True == v_2313073_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2312433_25, v_2312434_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2312507_25, v_2312508_25);
 return;
 } else {
-Obj v_2313000_25 = PRIM_ISCONS(v_2312435_25);
-if (True == v_2313000_25) {
-Obj v_2313001_25 = PRIM_CAR(v_2312435_25);
-Obj v_import = v_2313001_25;
-Obj v_2313002_25 = PRIM_CDR(v_2312435_25);
-Obj v_more = v_2313002_25;
+Obj v_2313074_25 = PRIM_ISCONS(v_2312509_25);
+if (True == v_2313074_25) {
+Obj v_2313075_25 = PRIM_CAR(v_2312509_25);
+Obj v_import = v_2313075_25;
+Obj v_2313076_25 = PRIM_CDR(v_2312509_25);
+Obj v_more = v_2313076_25;
 R[1] = v_import;
-R[2] = v_2312433_25;
-R[3] = v_2312434_25;
+R[2] = v_2312507_25;
+R[3] = v_2312508_25;
 R[4] = v_more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
@@ -1448,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj v_2313009_25= co->res;
+Obj v_2313083_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313009_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313083_25);
 return;
 }
 case 2:
 {
-Obj v_2313008_25= co->res;
+Obj v_2313082_25= co->res;
 Obj v_import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313008_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313082_25);
 return;
 }
 case 3:
 {
-Obj v_2313007_25= co->res;
+Obj v_2313081_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313007_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313081_25);
 return;
 }
 case 4:
 {
-Obj v_2313006_25= co->res;
+Obj v_2313080_25= co->res;
 Obj v_import = R[1];
-Obj v_2312433_25 = R[2];
-Obj v_2312434_25 = R[3];
+Obj v_2312507_25 = R[2];
+Obj v_2312508_25 = R[3];
 Obj v_more = R[4];
-if (True == v_2313006_25) {
+if (True == v_2313080_25) {
 R[1] = v_import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2312433_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2312507_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2312433_25, v_2312434_25, v_more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2312507_25, v_2312508_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj v_2313005_25= co->res;
+Obj v_2313079_25= co->res;
 Obj v_import = R[1];
-Obj v_2312433_25 = R[2];
-Obj v_2312434_25 = R[3];
+Obj v_2312507_25 = R[2];
+Obj v_2312508_25 = R[3];
 Obj v_more = R[4];
-Obj v_export = v_2313005_25;
+Obj v_export = v_2313079_25;
 R[1] = v_import;
-R[2] = v_2312433_25;
-R[3] = v_2312434_25;
+R[2] = v_2312507_25;
+R[3] = v_2312508_25;
 R[4] = v_more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2312433_25, v_export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2312507_25, v_export);
 return;
 }
 case 6:
 {
-Obj v_2313004_25= co->res;
+Obj v_2313078_25= co->res;
 Obj v_import = R[1];
-Obj v_2312433_25 = R[2];
-Obj v_2312434_25 = R[3];
+Obj v_2312507_25 = R[2];
+Obj v_2312508_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2312433_25;
-R[3] = v_2312434_25;
+R[2] = v_2312507_25;
+R[3] = v_2312508_25;
 R[4] = v_more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313004_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313078_25, Nil);
 return;
 }
 case 7:
 {
-Obj v_2313003_25= co->res;
+Obj v_2313077_25= co->res;
 Obj v_import = R[1];
-Obj v_2312433_25 = R[2];
-Obj v_2312434_25 = R[3];
+Obj v_2312507_25 = R[2];
+Obj v_2312508_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2312433_25;
-R[3] = v_2312434_25;
+R[2] = v_2312507_25;
+R[3] = v_2312508_25;
 R[4] = v_more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313003_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313077_25);
 return;
 }
 }
@@ -1543,8 +1544,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2312993_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v_2312993_25) {
+Obj v_2313067_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2313067_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1557,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj v_2312997_25= co->res;
+Obj v_2313071_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2312997_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313071_25);
 return;
 }
 case 2:
 {
-Obj v_2312996_25= co->res;
+Obj v_2313070_25= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2312996_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2313070_25);
 return;
 }
 case 3:
 {
-Obj v_2312995_25= co->res;
+Obj v_2313069_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2312995_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313069_25);
 return;
 }
 case 4:
 {
-Obj v_2312994_25= co->res;
+Obj v_2313068_25= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v_2312994_25) {
+if (True == v_2313068_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1609,26 +1610,26 @@ return;
 }
 case 1:
 {
-Obj v_2312975_25= co->res;
+Obj v_2313049_25= co->res;
 Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2312975_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
+coraCall1(co, v_2313049_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj v_2312974_25= co->res;
+Obj v_2313048_25= co->res;
 Obj v_path = R[1];
 R[1] = v_path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2312974_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2313048_25);
 return;
 }
 case 3:
 {
-Obj v_2312973_25= co->res;
+Obj v_2313047_25= co->res;
 Obj v_sexp = R[1];
-Obj v_path = v_2312973_25;
+Obj v_path = v_2313047_25;
 R[1] = v_path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
@@ -1644,41 +1645,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2312976_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2313050_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v_2312976_25;
+R[3] = v_2313050_25;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v_2312986_25= co->res;
-Obj v_2312976_25 = R[1];
-Obj v_2312987_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2312986_25);
-Obj v_2312988_25 = makeCons(co->gc, v_2312987_25, Nil);
-Obj v_2312989_25 = makeCons(co->gc, v_2312976_25, v_2312988_25);
-Obj v_2312990_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312989_25);
-Obj v_2312991_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2312990_25);
-coraReturn(co, v_2312991_25);
+Obj v_2313060_25= co->res;
+Obj v_2313050_25 = R[1];
+Obj v_2313061_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2313060_25);
+Obj v_2313062_25 = makeCons(co->gc, v_2313061_25, Nil);
+Obj v_2313063_25 = makeCons(co->gc, v_2313050_25, v_2313062_25);
+Obj v_2313064_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313063_25);
+Obj v_2313065_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2313064_25);
+coraReturn(co, v_2313065_25);
 return;
 }
 case 2:
 {
-Obj v_2312979_25= co->res;
+Obj v_2313053_25= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v_2312976_25 = R[3];
-Obj v_2312980_25 = makeCons(co->gc, v_export, Nil);
-Obj v_2312981_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2312980_25);
-Obj v_2312982_25 = makeCons(co->gc, v_2312981_25, Nil);
-Obj v_2312983_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2312982_25);
-Obj v_2312984_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312983_25);
-Obj v_2312985_25 = makeCons(co->gc, v_2312984_25, v_body);
-R[1] = v_2312976_25;
+Obj v_2313050_25 = R[3];
+Obj v_2313054_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2313055_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2313054_25);
+Obj v_2313056_25 = makeCons(co->gc, v_2313055_25, Nil);
+Obj v_2313057_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2313056_25);
+Obj v_2313058_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313057_25);
+Obj v_2313059_25 = makeCons(co->gc, v_2313058_25, v_body);
+R[1] = v_2313050_25;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312979_25, v_2312985_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313053_25, v_2313059_25);
 return;
 }
 }
@@ -1689,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v_2312977_25 = makeCons(co->gc, v_imp, Nil);
-Obj v_2312978_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2312977_25);
-coraReturn(co, v_2312978_25);
+Obj v_2313051_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2313052_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313051_25);
+coraReturn(co, v_2313052_25);
 return;
 }
 }
@@ -1714,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312426_25 = R[1];
-Obj v_2312427_25 = R[2];
-Obj v_2312428_25 = R[3];
-Obj v_2312429_25 = R[4];
-Obj v_2312430_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2312428_25, v_2312426_25, v_2312427_25, v_2312429_25);
-Obj v_2312953_25 = PRIM_ISCONS(v_2312426_25);
-if (True == v_2312953_25) {
-Obj v_2312954_25 = PRIM_CAR(v_2312426_25);
-Obj v_2312955_25 = PRIM_ISCONS(v_2312954_25);
-if (True == v_2312955_25) {
-Obj v_2312956_25 = PRIM_CAR(v_2312426_25);
-Obj v_2312957_25 = PRIM_CAR(v_2312956_25);
-Obj v_2312958_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2312957_25);
-if (True == v_2312958_25) {
-Obj v_2312959_25 = PRIM_CAR(v_2312426_25);
-Obj v_2312960_25 = PRIM_CDR(v_2312959_25);
-Obj v_2312961_25 = PRIM_ISCONS(v_2312960_25);
-if (True == v_2312961_25) {
-Obj v_2312962_25 = PRIM_CAR(v_2312426_25);
-Obj v_2312963_25 = PRIM_CDR(v_2312962_25);
-Obj v_2312964_25 = PRIM_CAR(v_2312963_25);
-Obj v_lib = v_2312964_25;
-Obj v_2312965_25 = PRIM_CAR(v_2312426_25);
-Obj v_2312966_25 = PRIM_CDR(v_2312965_25);
-Obj v_2312967_25 = PRIM_CDR(v_2312966_25);
-Obj v_2312968_25 = PRIM_EQ(Nil, v_2312967_25);
-if (True == v_2312968_25) {
-Obj v_2312969_25 = PRIM_CDR(v_2312426_25);
-Obj v_rest = v_2312969_25;
-Obj v_2312970_25 = makeCons(co->gc, v_lib, v_2312427_25);
+Obj v_2312500_25 = R[1];
+Obj v_2312501_25 = R[2];
+Obj v_2312502_25 = R[3];
+Obj v_2312503_25 = R[4];
+Obj v_2312504_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2312502_25, v_2312500_25, v_2312501_25, v_2312503_25);
+Obj v_2313027_25 = PRIM_ISCONS(v_2312500_25);
+if (True == v_2313027_25) {
+Obj v_2313028_25 = PRIM_CAR(v_2312500_25);
+Obj v_2313029_25 = PRIM_ISCONS(v_2313028_25);
+if (True == v_2313029_25) {
+Obj v_2313030_25 = PRIM_CAR(v_2312500_25);
+Obj v_2313031_25 = PRIM_CAR(v_2313030_25);
+Obj v_2313032_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313031_25);
+if (True == v_2313032_25) {
+Obj v_2313033_25 = PRIM_CAR(v_2312500_25);
+Obj v_2313034_25 = PRIM_CDR(v_2313033_25);
+Obj v_2313035_25 = PRIM_ISCONS(v_2313034_25);
+if (True == v_2313035_25) {
+Obj v_2313036_25 = PRIM_CAR(v_2312500_25);
+Obj v_2313037_25 = PRIM_CDR(v_2313036_25);
+Obj v_2313038_25 = PRIM_CAR(v_2313037_25);
+Obj v_lib = v_2313038_25;
+Obj v_2313039_25 = PRIM_CAR(v_2312500_25);
+Obj v_2313040_25 = PRIM_CDR(v_2313039_25);
+Obj v_2313041_25 = PRIM_CDR(v_2313040_25);
+Obj v_2313042_25 = PRIM_EQ(Nil, v_2313041_25);
+if (True == v_2313042_25) {
+Obj v_2313043_25 = PRIM_CDR(v_2312500_25);
+Obj v_rest = v_2313043_25;
+Obj v_2313044_25 = makeCons(co->gc, v_lib, v_2312501_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2312970_25, v_2312428_25, v_2312429_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2313044_25, v_2312502_25, v_2312503_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312430_25);
+coraCall0(co, v_2312504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312430_25);
+coraCall0(co, v_2312504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312430_25);
+coraCall0(co, v_2312504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312430_25);
+coraCall0(co, v_2312504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312430_25);
+coraCall0(co, v_2312504_25);
 return;
 }
 }
@@ -1780,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312431_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2312944_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2312944_25) {
-Obj v_2312945_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2312946_25 = PRIM_ISCONS(v_2312945_25);
-if (True == v_2312946_25) {
-Obj v_2312947_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2312948_25 = PRIM_CAR(v_2312947_25);
-Obj v_2312949_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2312948_25);
-if (True == v_2312949_25) {
-Obj v_2312950_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2312951_25 = PRIM_CDR(v_2312950_25);
-Obj v_more = v_2312951_25;
-Obj v_2312952_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_rest = v_2312952_25;
+Obj v_2312505_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313018_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313018_25) {
+Obj v_2313019_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313020_25 = PRIM_ISCONS(v_2313019_25);
+if (True == v_2313020_25) {
+Obj v_2313021_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313022_25 = PRIM_CAR(v_2313021_25);
+Obj v_2313023_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2313022_25);
+if (True == v_2313023_25) {
+Obj v_2313024_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313025_25 = PRIM_CDR(v_2313024_25);
+Obj v_more = v_2313025_25;
+Obj v_2313026_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2313026_25;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312431_25);
+coraCall0(co, v_2312505_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312431_25);
+coraCall0(co, v_2312505_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312431_25);
+coraCall0(co, v_2312505_25);
 return;
 }
 }
@@ -1827,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj v_2312943_25= co->res;
+Obj v_2313017_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v_2312943_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2313017_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj v_2312941_25= co->res;
-Obj v_2312940_25 = R[1];
+Obj v_2313015_25= co->res;
+Obj v_2313014_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2312940_25, v_2312941_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2313014_25, v_2313015_25);
 return;
 }
 case 2:
 {
-Obj v_2312940_25= co->res;
+Obj v_2313014_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2312940_25;
+R[1] = v_2313014_25;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1879,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj v_2312929_25= co->res;
-Obj v_2312928_25 = R[1];
+Obj v_2313003_25= co->res;
+Obj v_2313002_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2312930_25 = makeCons(co->gc, v_2312929_25, Nil);
-Obj v_2312931_25 = makeCons(co->gc, v_2312928_25, v_2312930_25);
-Obj v_2312932_25 = makeCons(co->gc, v_fn, v_2312931_25);
-coraReturn(co, v_2312932_25);
+Obj v_2313004_25 = makeCons(co->gc, v_2313003_25, Nil);
+Obj v_2313005_25 = makeCons(co->gc, v_2313002_25, v_2313004_25);
+Obj v_2313006_25 = makeCons(co->gc, v_fn, v_2313005_25);
+coraReturn(co, v_2313006_25);
 return;
 }
 case 2:
 {
-Obj v_2312935_25= co->res;
-Obj v_2312933_25 = R[1];
+Obj v_2313009_25= co->res;
+Obj v_2313007_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2312936_25 = makeCons(co->gc, v_2312935_25, Nil);
-Obj v_2312937_25 = makeCons(co->gc, v_2312933_25, v_2312936_25);
-Obj v_2312938_25 = makeCons(co->gc, v_fn, v_2312937_25);
-coraReturn(co, v_2312938_25);
+Obj v_2313010_25 = makeCons(co->gc, v_2313009_25, Nil);
+Obj v_2313011_25 = makeCons(co->gc, v_2313007_25, v_2313010_25);
+Obj v_2313012_25 = makeCons(co->gc, v_fn, v_2313011_25);
+coraReturn(co, v_2313012_25);
 return;
 }
 case 3:
 {
-Obj v_2312927_25= co->res;
+Obj v_2313001_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v_2312927_25) {
-Obj v_2312928_25 = PRIM_CAR(v_arglist);
-R[1] = v_2312928_25;
+if (True == v_2313001_25) {
+Obj v_2313002_25 = PRIM_CAR(v_arglist);
+R[1] = v_2313002_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v_2312933_25 = PRIM_CAR(v_arglist);
-Obj v_2312934_25 = PRIM_CDR(v_arglist);
-R[1] = v_2312933_25;
+Obj v_2313007_25 = PRIM_CAR(v_arglist);
+Obj v_2313008_25 = PRIM_CDR(v_arglist);
+R[1] = v_2313007_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2312934_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2313008_25);
 return;
 }
 }
 case 4:
 {
-Obj v_2312926_25= co->res;
+Obj v_2313000_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312926_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313000_25);
 return;
 }
 }
@@ -1946,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj v_2312924_25= co->res;
+Obj v_2312998_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2312924_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2312998_25);
 return;
 }
 }
@@ -1958,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312421_25 = R[1];
-Obj v_2312904_25 = primIsSymbol(v_2312421_25);
-if (True == v_2312904_25) {
-Obj v_2312905_25 = makeCons(co->gc, v_2312421_25, Nil);
-Obj v_2312906_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312905_25);
-coraReturn(co, v_2312906_25);
-return;
-} else {
-Obj v_2312423_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2312421_25);
-Obj v_2312913_25 = PRIM_ISCONS(v_2312421_25);
-if (True == v_2312913_25) {
-Obj v_2312914_25 = PRIM_CAR(v_2312421_25);
-Obj v_2312915_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2312914_25);
-if (True == v_2312915_25) {
-Obj v_2312916_25 = PRIM_CDR(v_2312421_25);
-Obj v_2312917_25 = PRIM_ISCONS(v_2312916_25);
-if (True == v_2312917_25) {
-Obj v_2312918_25 = PRIM_CDR(v_2312421_25);
-Obj v_2312919_25 = PRIM_CAR(v_2312918_25);
-Obj v_x = v_2312919_25;
-Obj v_2312920_25 = PRIM_CDR(v_2312421_25);
-Obj v_2312921_25 = PRIM_CDR(v_2312920_25);
-Obj v_2312922_25 = PRIM_EQ(Nil, v_2312921_25);
-if (True == v_2312922_25) {
+Obj v_2312495_25 = R[1];
+Obj v_2312978_25 = primIsSymbol(v_2312495_25);
+if (True == v_2312978_25) {
+Obj v_2312979_25 = makeCons(co->gc, v_2312495_25, Nil);
+Obj v_2312980_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312979_25);
+coraReturn(co, v_2312980_25);
+return;
+} else {
+Obj v_2312497_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2312495_25);
+Obj v_2312987_25 = PRIM_ISCONS(v_2312495_25);
+if (True == v_2312987_25) {
+Obj v_2312988_25 = PRIM_CAR(v_2312495_25);
+Obj v_2312989_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2312988_25);
+if (True == v_2312989_25) {
+Obj v_2312990_25 = PRIM_CDR(v_2312495_25);
+Obj v_2312991_25 = PRIM_ISCONS(v_2312990_25);
+if (True == v_2312991_25) {
+Obj v_2312992_25 = PRIM_CDR(v_2312495_25);
+Obj v_2312993_25 = PRIM_CAR(v_2312992_25);
+Obj v_x = v_2312993_25;
+Obj v_2312994_25 = PRIM_CDR(v_2312495_25);
+Obj v_2312995_25 = PRIM_CDR(v_2312994_25);
+Obj v_2312996_25 = PRIM_EQ(Nil, v_2312995_25);
+if (True == v_2312996_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312423_25);
+coraCall0(co, v_2312497_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312423_25);
+coraCall0(co, v_2312497_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312423_25);
+coraCall0(co, v_2312497_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312423_25);
+coraCall0(co, v_2312497_25);
 return;
 }
 }
@@ -2013,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312907_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312907_25) {
-Obj v_2312908_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312908_25;
-Obj v_2312909_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2312909_25;
-Obj v_2312910_25 = makeCons(co->gc, v_x, v_more);
+Obj v_2312981_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312981_25) {
+Obj v_2312982_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312982_25;
+Obj v_2312983_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2312983_25;
+Obj v_2312984_25 = makeCons(co->gc, v_x, v_more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2312910_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2312984_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2030,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj v_2312911_25= co->res;
-Obj v_2312912_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312911_25);
-coraReturn(co, v_2312912_25);
+Obj v_2312985_25= co->res;
+Obj v_2312986_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312985_25);
+coraReturn(co, v_2312986_25);
 return;
 }
 }
@@ -2043,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312902_25 = PRIM_CDR(v_exp);
+Obj v_2312976_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2312902_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2312976_25);
 return;
 }
 }
@@ -2055,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312417_25 = R[1];
-Obj v_2312418_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2312417_25);
-Obj v_2312897_25 = PRIM_ISCONS(v_2312417_25);
-if (True == v_2312897_25) {
-Obj v_2312898_25 = PRIM_CAR(v_2312417_25);
-Obj v_x = v_2312898_25;
-Obj v_2312899_25 = PRIM_CDR(v_2312417_25);
-Obj v_2312900_25 = PRIM_EQ(Nil, v_2312899_25);
-if (True == v_2312900_25) {
+Obj v_2312491_25 = R[1];
+Obj v_2312492_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2312491_25);
+Obj v_2312971_25 = PRIM_ISCONS(v_2312491_25);
+if (True == v_2312971_25) {
+Obj v_2312972_25 = PRIM_CAR(v_2312491_25);
+Obj v_x = v_2312972_25;
+Obj v_2312973_25 = PRIM_CDR(v_2312491_25);
+Obj v_2312974_25 = PRIM_EQ(Nil, v_2312973_25);
+if (True == v_2312974_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312418_25);
+coraCall0(co, v_2312492_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312418_25);
+coraCall0(co, v_2312492_25);
 return;
 }
 }
@@ -2084,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312419_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v_2312885_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312885_25) {
-Obj v_2312886_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312886_25;
-Obj v_2312887_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312888_25 = PRIM_ISCONS(v_2312887_25);
-if (True == v_2312888_25) {
-Obj v_2312889_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312890_25 = PRIM_CAR(v_2312889_25);
-Obj v_y = v_2312890_25;
-Obj v_2312891_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312892_25 = PRIM_CDR(v_2312891_25);
-Obj v_2312893_25 = PRIM_EQ(Nil, v_2312892_25);
-if (True == v_2312893_25) {
-Obj v_2312894_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2312895_25 = makeCons(co->gc, v_x, v_2312894_25);
-Obj v_2312896_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312895_25);
-coraReturn(co, v_2312896_25);
+Obj v_2312493_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v_2312959_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312959_25) {
+Obj v_2312960_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312960_25;
+Obj v_2312961_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312962_25 = PRIM_ISCONS(v_2312961_25);
+if (True == v_2312962_25) {
+Obj v_2312963_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312964_25 = PRIM_CAR(v_2312963_25);
+Obj v_y = v_2312964_25;
+Obj v_2312965_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312966_25 = PRIM_CDR(v_2312965_25);
+Obj v_2312967_25 = PRIM_EQ(Nil, v_2312966_25);
+if (True == v_2312967_25) {
+Obj v_2312968_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2312969_25 = makeCons(co->gc, v_x, v_2312968_25);
+Obj v_2312970_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312969_25);
+coraReturn(co, v_2312970_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312419_25);
+coraCall0(co, v_2312493_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312419_25);
+coraCall0(co, v_2312493_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312419_25);
+coraCall0(co, v_2312493_25);
 return;
 }
 }
@@ -2127,12 +2128,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312878_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312878_25) {
-Obj v_2312879_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312879_25;
-Obj v_2312880_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2312880_25;
+Obj v_2312952_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312952_25) {
+Obj v_2312953_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312953_25;
+Obj v_2312954_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2312954_25;
 R[1] = v_x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
@@ -2145,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj v_2312881_25= co->res;
+Obj v_2312955_25= co->res;
 Obj v_x = R[1];
-Obj v_2312882_25 = makeCons(co->gc, v_2312881_25, Nil);
-Obj v_2312883_25 = makeCons(co->gc, v_x, v_2312882_25);
-Obj v_2312884_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312883_25);
-coraReturn(co, v_2312884_25);
+Obj v_2312956_25 = makeCons(co->gc, v_2312955_25, Nil);
+Obj v_2312957_25 = makeCons(co->gc, v_x, v_2312956_25);
+Obj v_2312958_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312957_25);
+coraReturn(co, v_2312958_25);
 return;
 }
 }
@@ -2167,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj v_2312876_25= co->res;
+Obj v_2312950_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2312876_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2312950_25);
 return;
 }
 case 2:
 {
-Obj v_2312875_25= co->res;
+Obj v_2312949_25= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2312875_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2312949_25);
 return;
 }
 }
@@ -2217,25 +2218,25 @@ return;
 }
 case 1:
 {
-Obj v_2312864_25= co->res;
+Obj v_2312938_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2312865_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
-Obj v_2312866_25 = makeCons(co->gc, v_2312865_25, v_body);
-Obj v_2312867_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2312866_25);
-Obj v_2312868_25 = makeCons(co->gc, v_2312867_25, Nil);
-Obj v_2312869_25 = makeCons(co->gc, v_args, v_2312868_25);
-Obj v_2312870_25 = makeCons(co->gc, v_2312864_25, v_2312869_25);
-Obj v_2312871_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2312870_25);
-coraReturn(co, v_2312871_25);
+Obj v_2312939_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
+Obj v_2312940_25 = makeCons(co->gc, v_2312939_25, v_body);
+Obj v_2312941_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2312940_25);
+Obj v_2312942_25 = makeCons(co->gc, v_2312941_25, Nil);
+Obj v_2312943_25 = makeCons(co->gc, v_args, v_2312942_25);
+Obj v_2312944_25 = makeCons(co->gc, v_2312938_25, v_2312943_25);
+Obj v_2312945_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2312944_25);
+coraReturn(co, v_2312945_25);
 return;
 }
 case 2:
 {
-Obj v_2312863_25= co->res;
+Obj v_2312937_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_args = v_2312863_25;
+Obj v_args = v_2312937_25;
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun60, 1, R);
@@ -2244,10 +2245,10 @@ return;
 }
 case 3:
 {
-Obj v_2312862_25= co->res;
+Obj v_2312936_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_nargs = v_2312862_25;
+Obj v_nargs = v_2312936_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 2, R);
@@ -2256,9 +2257,9 @@ return;
 }
 case 4:
 {
-Obj v_2312861_25= co->res;
+Obj v_2312935_25= co->res;
 Obj v_exp = R[1];
-Obj v_body = v_2312861_25;
+Obj v_body = v_2312935_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 3, R);
@@ -2267,11 +2268,11 @@ return;
 }
 case 5:
 {
-Obj v_2312860_25= co->res;
+Obj v_2312934_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2312860_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2312934_25);
 return;
 }
 }
@@ -2282,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v_2312854_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v_2312854_25) {
+Obj v_2312928_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2312928_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2312855_25 = primGenSym(co);
-Obj v_2312856_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v_2312855_25;
+Obj v_2312929_25 = primGenSym(co);
+Obj v_2312930_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2312929_25;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2312856_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2312930_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2312857_25= co->res;
-Obj v_2312855_25 = R[1];
-Obj v_2312858_25 = makeCons(co->gc, v_2312855_25, v_2312857_25);
-coraReturn(co, v_2312858_25);
+Obj v_2312931_25= co->res;
+Obj v_2312929_25 = R[1];
+Obj v_2312932_25 = makeCons(co->gc, v_2312929_25, v_2312931_25);
+coraReturn(co, v_2312932_25);
 return;
 }
 }
@@ -2317,10 +2318,10 @@ return;
 }
 case 1:
 {
-Obj v_2312851_25= co->res;
+Obj v_2312925_25= co->res;
 Obj v_n = R[1];
-Obj v_2312852_25 = primNot(v_2312851_25);
-if (True == v_2312852_25) {
+Obj v_2312926_25 = primNot(v_2312925_25);
+if (True == v_2312926_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2331,29 +2332,29 @@ return;
 }
 case 2:
 {
-Obj v_2312850_25= co->res;
+Obj v_2312924_25= co->res;
 Obj v_n = R[1];
 R[1] = v_n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312850_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312924_25);
 return;
 }
 case 3:
 {
-Obj v_2312845_25= co->res;
-Obj v_counts = v_2312845_25;
-Obj v_2312846_25 = PRIM_CAR(v_counts);
-Obj v_n = v_2312846_25;
-Obj v_2312849_25 = PRIM_CDR(v_counts);
+Obj v_2312919_25= co->res;
+Obj v_counts = v_2312919_25;
+Obj v_2312920_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2312920_25;
+Obj v_2312923_25 = PRIM_CDR(v_counts);
 R[1] = v_n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2312849_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2312923_25);
 return;
 }
 case 4:
 {
-Obj v_2312843_25= co->res;
-Obj v_pats = v_2312843_25;
+Obj v_2312917_25= co->res;
+Obj v_pats = v_2312917_25;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
 return;
@@ -2366,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312847_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v_2312848_25 = primNot(v_2312847_25);
-coraReturn(co, v_2312848_25);
+Obj v_2312921_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2312922_25 = primNot(v_2312921_25);
+coraReturn(co, v_2312922_25);
 return;
 }
 }
@@ -2379,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312844_25 = PRIM_CDR(v_x);
+Obj v_2312918_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2312844_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2312918_25);
 return;
 }
 }
@@ -2393,25 +2394,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v_2312837_25 = PRIM_EQ(v_l1, Nil);
-if (True == v_2312837_25) {
+Obj v_2312911_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2312911_25) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v_2312838_25 = PRIM_CAR(v_l1);
-Obj v_2312839_25 = PRIM_CDR(v_l1);
-R[1] = v_2312838_25;
+Obj v_2312912_25 = PRIM_CAR(v_l1);
+Obj v_2312913_25 = PRIM_CDR(v_l1);
+R[1] = v_2312912_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312839_25, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312913_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v_2312840_25= co->res;
-Obj v_2312838_25 = R[1];
-Obj v_2312841_25 = makeCons(co->gc, v_2312838_25, v_2312840_25);
-coraReturn(co, v_2312841_25);
+Obj v_2312914_25= co->res;
+Obj v_2312912_25 = R[1];
+Obj v_2312915_25 = makeCons(co->gc, v_2312912_25, v_2312914_25);
+coraReturn(co, v_2312915_25);
 return;
 }
 }
@@ -2437,14 +2438,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v_2312828_25 = PRIM_ISCONS(v_l);
-if (True == v_2312828_25) {
-Obj v_2312829_25 = PRIM_CAR(v_l);
+Obj v_2312902_25 = PRIM_ISCONS(v_l);
+if (True == v_2312902_25) {
+Obj v_2312903_25 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v_2312829_25);
+coraCall1(co, v_fn, v_2312903_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -2454,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj v_2312830_25= co->res;
+Obj v_2312904_25= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v_2312830_25) {
-Obj v_2312831_25 = PRIM_CAR(v_l);
-Obj v_2312832_25 = makeCons(co->gc, v_2312831_25, v_res);
-Obj v_2312833_25 = PRIM_CDR(v_l);
+if (True == v_2312904_25) {
+Obj v_2312905_25 = PRIM_CAR(v_l);
+Obj v_2312906_25 = makeCons(co->gc, v_2312905_25, v_res);
+Obj v_2312907_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2312832_25, v_fn, v_2312833_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2312906_25, v_fn, v_2312907_25);
 return;
 } else {
-Obj v_2312834_25 = PRIM_CDR(v_l);
+Obj v_2312908_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2312834_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2312908_25);
 return;
 }
 }
@@ -2493,15 +2494,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v_2312823_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2312823_25) {
+Obj v_2312897_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2312897_25) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v_2312824_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v_2312825_25 = PRIM_CDR(v_l);
+Obj v_2312898_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2312899_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2312824_25, v_2312825_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2312898_25, v_2312899_25);
 return;
 }
 }
@@ -2522,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj v_2312821_25= co->res;
-Obj v_2312820_25 = R[1];
+Obj v_2312895_25= co->res;
+Obj v_2312894_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2312820_25, v_2312821_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2312894_25, v_2312895_25);
 return;
 }
 case 2:
 {
-Obj v_2312818_25= co->res;
+Obj v_2312892_25= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v_2312818_25) {
+if (True == v_2312892_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v_2312819_25 = PRIM_CAR(v_rules);
-Obj v_2312820_25 = makeCons(co->gc, v_2312819_25, v_res);
-R[1] = v_2312820_25;
+Obj v_2312893_25 = PRIM_CAR(v_rules);
+Obj v_2312894_25 = makeCons(co->gc, v_2312893_25, v_res);
+R[1] = v_2312894_25;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2568,48 +2569,48 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v_2312765_25 = PRIM_EQ(Nil, v_input);
-if (True == v_2312765_25) {
+Obj v_2312839_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2312839_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v_2312414_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v_2312783_25 = PRIM_ISCONS(v_input);
-if (True == v_2312783_25) {
-Obj v_2312784_25 = PRIM_CAR(v_input);
-Obj v_2312785_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312784_25);
-if (True == v_2312785_25) {
-Obj v_2312786_25 = PRIM_CDR(v_input);
-Obj v_2312787_25 = PRIM_ISCONS(v_2312786_25);
-if (True == v_2312787_25) {
-Obj v_2312788_25 = PRIM_CDR(v_input);
-Obj v_2312789_25 = PRIM_CAR(v_2312788_25);
-Obj v_act = v_2312789_25;
-Obj v_2312790_25 = PRIM_CDR(v_input);
-Obj v_2312791_25 = PRIM_CDR(v_2312790_25);
-Obj v_2312792_25 = PRIM_ISCONS(v_2312791_25);
-if (True == v_2312792_25) {
-Obj v_2312793_25 = PRIM_CDR(v_input);
-Obj v_2312794_25 = PRIM_CDR(v_2312793_25);
-Obj v_2312795_25 = PRIM_CAR(v_2312794_25);
-Obj v_2312796_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2312795_25);
-if (True == v_2312796_25) {
-Obj v_2312797_25 = PRIM_CDR(v_input);
-Obj v_2312798_25 = PRIM_CDR(v_2312797_25);
-Obj v_2312799_25 = PRIM_CDR(v_2312798_25);
-Obj v_2312800_25 = PRIM_ISCONS(v_2312799_25);
-if (True == v_2312800_25) {
-Obj v_2312801_25 = PRIM_CDR(v_input);
-Obj v_2312802_25 = PRIM_CDR(v_2312801_25);
-Obj v_2312803_25 = PRIM_CDR(v_2312802_25);
-Obj v_2312804_25 = PRIM_CAR(v_2312803_25);
-Obj v_pred = v_2312804_25;
-Obj v_2312805_25 = PRIM_CDR(v_input);
-Obj v_2312806_25 = PRIM_CDR(v_2312805_25);
-Obj v_2312807_25 = PRIM_CDR(v_2312806_25);
-Obj v_2312808_25 = PRIM_CDR(v_2312807_25);
-Obj v_remain = v_2312808_25;
+Obj v_2312488_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v_2312857_25 = PRIM_ISCONS(v_input);
+if (True == v_2312857_25) {
+Obj v_2312858_25 = PRIM_CAR(v_input);
+Obj v_2312859_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312858_25);
+if (True == v_2312859_25) {
+Obj v_2312860_25 = PRIM_CDR(v_input);
+Obj v_2312861_25 = PRIM_ISCONS(v_2312860_25);
+if (True == v_2312861_25) {
+Obj v_2312862_25 = PRIM_CDR(v_input);
+Obj v_2312863_25 = PRIM_CAR(v_2312862_25);
+Obj v_act = v_2312863_25;
+Obj v_2312864_25 = PRIM_CDR(v_input);
+Obj v_2312865_25 = PRIM_CDR(v_2312864_25);
+Obj v_2312866_25 = PRIM_ISCONS(v_2312865_25);
+if (True == v_2312866_25) {
+Obj v_2312867_25 = PRIM_CDR(v_input);
+Obj v_2312868_25 = PRIM_CDR(v_2312867_25);
+Obj v_2312869_25 = PRIM_CAR(v_2312868_25);
+Obj v_2312870_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2312869_25);
+if (True == v_2312870_25) {
+Obj v_2312871_25 = PRIM_CDR(v_input);
+Obj v_2312872_25 = PRIM_CDR(v_2312871_25);
+Obj v_2312873_25 = PRIM_CDR(v_2312872_25);
+Obj v_2312874_25 = PRIM_ISCONS(v_2312873_25);
+if (True == v_2312874_25) {
+Obj v_2312875_25 = PRIM_CDR(v_input);
+Obj v_2312876_25 = PRIM_CDR(v_2312875_25);
+Obj v_2312877_25 = PRIM_CDR(v_2312876_25);
+Obj v_2312878_25 = PRIM_CAR(v_2312877_25);
+Obj v_pred = v_2312878_25;
+Obj v_2312879_25 = PRIM_CDR(v_input);
+Obj v_2312880_25 = PRIM_CDR(v_2312879_25);
+Obj v_2312881_25 = PRIM_CDR(v_2312880_25);
+Obj v_2312882_25 = PRIM_CDR(v_2312881_25);
+Obj v_remain = v_2312882_25;
 R[1] = v_act;
 R[2] = v_pred;
 R[3] = v_result;
@@ -2619,52 +2620,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312414_25);
+coraCall0(co, v_2312488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312414_25);
+coraCall0(co, v_2312488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312414_25);
+coraCall0(co, v_2312488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312414_25);
+coraCall0(co, v_2312488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312414_25);
+coraCall0(co, v_2312488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312414_25);
+coraCall0(co, v_2312488_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312809_25= co->res;
+Obj v_2312883_25= co->res;
 Obj v_act = R[1];
 Obj v_pred = R[2];
 Obj v_result = R[3];
 Obj v_remain = R[4];
-Obj v_2312810_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312809_25);
-Obj v_pat = v_2312810_25;
-Obj v_2312811_25 = makeCons(co->gc, v_act, Nil);
-Obj v_2312812_25 = makeCons(co->gc, v_pred, v_2312811_25);
-Obj v_2312813_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2312812_25);
-Obj v_2312814_25 = makeCons(co->gc, v_pat, v_result);
-Obj v_2312815_25 = makeCons(co->gc, v_2312813_25, v_2312814_25);
+Obj v_2312884_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312883_25);
+Obj v_pat = v_2312884_25;
+Obj v_2312885_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2312886_25 = makeCons(co->gc, v_pred, v_2312885_25);
+Obj v_2312887_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2312886_25);
+Obj v_2312888_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2312889_25 = makeCons(co->gc, v_2312887_25, v_2312888_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312815_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312889_25);
 return;
 }
 }
@@ -2674,21 +2675,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312415_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2312770_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312770_25) {
-Obj v_2312771_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2312772_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312771_25);
-if (True == v_2312772_25) {
-Obj v_2312773_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312774_25 = PRIM_ISCONS(v_2312773_25);
-if (True == v_2312774_25) {
-Obj v_2312775_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312776_25 = PRIM_CAR(v_2312775_25);
-Obj v_act = v_2312776_25;
-Obj v_2312777_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312778_25 = PRIM_CDR(v_2312777_25);
-Obj v_remain = v_2312778_25;
+Obj v_2312489_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2312844_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312844_25) {
+Obj v_2312845_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2312846_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312845_25);
+if (True == v_2312846_25) {
+Obj v_2312847_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312848_25 = PRIM_ISCONS(v_2312847_25);
+if (True == v_2312848_25) {
+Obj v_2312849_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312850_25 = PRIM_CAR(v_2312849_25);
+Obj v_act = v_2312850_25;
+Obj v_2312851_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312852_25 = PRIM_CDR(v_2312851_25);
+Obj v_remain = v_2312852_25;
 R[1] = v_act;
 R[2] = v_remain;
 saveCont(co, clofun47, 1, R);
@@ -2696,31 +2697,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312415_25);
+coraCall0(co, v_2312489_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312415_25);
+coraCall0(co, v_2312489_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312415_25);
+coraCall0(co, v_2312489_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2312779_25= co->res;
+Obj v_2312853_25= co->res;
 Obj v_act = R[1];
 Obj v_remain = R[2];
-Obj v_2312780_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312779_25);
-Obj v_pat = v_2312780_25;
-Obj v_2312781_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
-Obj v_2312782_25 = makeCons(co->gc, v_act, v_2312781_25);
+Obj v_2312854_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312853_25);
+Obj v_pat = v_2312854_25;
+Obj v_2312855_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2312856_25 = makeCons(co->gc, v_act, v_2312855_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312782_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312856_25);
 return;
 }
 }
@@ -2730,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312766_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312766_25) {
-Obj v_2312767_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312767_25;
-Obj v_2312768_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2312768_25;
-Obj v_2312769_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
+Obj v_2312840_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312840_25) {
+Obj v_2312841_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312841_25;
+Obj v_2312842_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2312842_25;
+Obj v_2312843_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2312769_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2312843_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2773,35 +2774,35 @@ return;
 }
 case 1:
 {
-Obj v_2312752_25= co->res;
+Obj v_2312826_25= co->res;
 Obj v_value = R[1];
-Obj v_rules = v_2312752_25;
-Obj v_2312465_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
-Obj v_2312759_25 = PRIM_ISCONS(v_value);
-if (True == v_2312759_25) {
-Obj v_2312760_25 = PRIM_CAR(v_value);
-Obj v_2312761_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2312760_25);
-Obj v_2312762_25 = primNot(v_2312761_25);
-if (True == v_2312762_25) {
+Obj v_rules = v_2312826_25;
+Obj v_2312539_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
+Obj v_2312833_25 = PRIM_ISCONS(v_value);
+if (True == v_2312833_25) {
+Obj v_2312834_25 = PRIM_CAR(v_value);
+Obj v_2312835_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2312834_25);
+Obj v_2312836_25 = primNot(v_2312835_25);
+if (True == v_2312836_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312465_25, True);
+coraCall1(co, v_2312539_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312465_25, False);
+coraCall1(co, v_2312539_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312465_25, False);
+coraCall1(co, v_2312539_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312751_25= co->res;
+Obj v_2312825_25= co->res;
 Obj v_exp = R[1];
-Obj v_value = v_2312751_25;
+Obj v_value = v_2312825_25;
 R[1] = v_value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
@@ -2809,11 +2810,11 @@ return;
 }
 case 3:
 {
-Obj v_2312750_25= co->res;
+Obj v_2312824_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2312750_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2312824_25);
 return;
 }
 }
@@ -2823,10 +2824,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312466_25 = R[1];
-if (True == v_2312466_25) {
-Obj v_2312753_25 = primGenSym(co);
-Obj v_val = v_2312753_25;
+Obj v_2312540_25 = R[1];
+if (True == v_2312540_25) {
+Obj v_2312827_25 = primGenSym(co);
+Obj v_val = v_2312827_25;
 R[1] = v_val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
@@ -2839,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj v_2312754_25= co->res;
+Obj v_2312828_25= co->res;
 Obj v_val = R[1];
-Obj v_2312755_25 = makeCons(co->gc, v_2312754_25, Nil);
-Obj v_2312756_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312755_25);
-Obj v_2312757_25 = makeCons(co->gc, v_val, v_2312756_25);
-Obj v_2312758_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312757_25);
-coraReturn(co, v_2312758_25);
+Obj v_2312829_25 = makeCons(co->gc, v_2312828_25, Nil);
+Obj v_2312830_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312829_25);
+Obj v_2312831_25 = makeCons(co->gc, v_val, v_2312830_25);
+Obj v_2312832_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312831_25);
+coraReturn(co, v_2312832_25);
 return;
 }
 }
@@ -2865,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj v_2312748_25= co->res;
-Obj v_2312463_25 = R[1];
-if (True == v_2312748_25) {
+Obj v_2312822_25= co->res;
+Obj v_2312537_25 = R[1];
+if (True == v_2312822_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312463_25, True);
+coraCall1(co, v_2312537_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312463_25, False);
+coraCall1(co, v_2312537_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312746_25= co->res;
+Obj v_2312820_25= co->res;
 Obj v_rules = R[1];
-Obj v_2312463_25 = R[2];
-if (True == v_2312746_25) {
-Obj v_2312747_25 = PRIM_CDR(v_rules);
-R[1] = v_2312463_25;
+Obj v_2312537_25 = R[2];
+if (True == v_2312820_25) {
+Obj v_2312821_25 = PRIM_CDR(v_rules);
+R[1] = v_2312537_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2312747_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2312821_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312463_25, False);
+coraCall1(co, v_2312537_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2312728_25= co->res;
+Obj v_2312802_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v_2312728_25) {
-Obj v_2312729_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v_2312730_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312729_25);
-coraReturn(co, v_2312730_25);
+if (True == v_2312802_25) {
+Obj v_2312803_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2312804_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312803_25);
+coraReturn(co, v_2312804_25);
 return;
 } else {
-Obj v_2312463_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v_2312537_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v_2312463_25;
+R[2] = v_2312537_25;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2920,12 +2921,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312464_25 = R[1];
-if (True == v_2312464_25) {
-Obj v_2312731_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_pat = v_2312731_25;
-Obj v_2312732_25 = primGenSym(co);
-Obj v_cc = v_2312732_25;
+Obj v_2312538_25 = R[1];
+if (True == v_2312538_25) {
+Obj v_2312805_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2312805_25;
+Obj v_2312806_25 = primGenSym(co);
+Obj v_cc = v_2312806_25;
 R[1] = v_pat;
 R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
@@ -2939,49 +2940,49 @@ return;
 }
 case 1:
 {
-Obj v_2312738_25= co->res;
+Obj v_2312812_25= co->res;
 Obj v_curr = R[1];
 Obj v_cc = R[2];
-Obj v_rest = v_2312738_25;
-Obj v_2312739_25 = makeCons(co->gc, v_rest, Nil);
-Obj v_2312740_25 = makeCons(co->gc, Nil, v_2312739_25);
-Obj v_2312741_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312740_25);
-Obj v_2312742_25 = makeCons(co->gc, v_curr, Nil);
-Obj v_2312743_25 = makeCons(co->gc, v_2312741_25, v_2312742_25);
-Obj v_2312744_25 = makeCons(co->gc, v_cc, v_2312743_25);
-Obj v_2312745_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312744_25);
-coraReturn(co, v_2312745_25);
+Obj v_rest = v_2312812_25;
+Obj v_2312813_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2312814_25 = makeCons(co->gc, Nil, v_2312813_25);
+Obj v_2312815_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312814_25);
+Obj v_2312816_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2312817_25 = makeCons(co->gc, v_2312815_25, v_2312816_25);
+Obj v_2312818_25 = makeCons(co->gc, v_cc, v_2312817_25);
+Obj v_2312819_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312818_25);
+coraReturn(co, v_2312819_25);
 return;
 }
 case 2:
 {
-Obj v_2312735_25= co->res;
+Obj v_2312809_25= co->res;
 Obj v_cc = R[1];
-Obj v_curr = v_2312735_25;
-Obj v_2312736_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2312737_25 = PRIM_CDR(v_2312736_25);
+Obj v_curr = v_2312809_25;
+Obj v_2312810_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2312811_25 = PRIM_CDR(v_2312810_25);
 R[1] = v_curr;
 R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2312737_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2312811_25);
 return;
 }
 case 3:
 {
-Obj v_2312734_25= co->res;
+Obj v_2312808_25= co->res;
 Obj v_action = R[1];
 Obj v_cc = R[2];
 R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2312734_25, closureRef(R[0], 0), v_action, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2312808_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj v_2312733_25= co->res;
+Obj v_2312807_25= co->res;
 Obj v_pat = R[1];
 Obj v_cc = R[2];
-Obj v_action = v_2312733_25;
+Obj v_action = v_2312807_25;
 R[1] = v_action;
 R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
@@ -2997,36 +2998,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v_2312715_25 = PRIM_CDR(v_rules);
-Obj v_2312716_25 = PRIM_CAR(v_2312715_25);
-Obj v_action = v_2312716_25;
-Obj v_2312461_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+Obj v_2312789_25 = PRIM_CDR(v_rules);
+Obj v_2312790_25 = PRIM_CAR(v_2312789_25);
+Obj v_action = v_2312790_25;
+Obj v_2312535_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
 R[1] = v_action;
-R[2] = v_2312461_25;
+R[2] = v_2312535_25;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
 return;
 }
 case 1:
 {
-Obj v_2312724_25= co->res;
+Obj v_2312798_25= co->res;
 Obj v_action = R[1];
-Obj v_2312461_25 = R[2];
-if (True == v_2312724_25) {
-Obj v_2312725_25 = PRIM_CAR(v_action);
-Obj v_2312726_25 = PRIM_EQ(v_2312725_25, getBinding(co, packageID, 110).name);
-if (True == v_2312726_25) {
+Obj v_2312535_25 = R[2];
+if (True == v_2312798_25) {
+Obj v_2312799_25 = PRIM_CAR(v_action);
+Obj v_2312800_25 = PRIM_EQ(v_2312799_25, getBinding(co, packageID, 110).name);
+if (True == v_2312800_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312461_25, True);
+coraCall1(co, v_2312535_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312461_25, False);
+coraCall1(co, v_2312535_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312461_25, False);
+coraCall1(co, v_2312535_25, False);
 return;
 }
 }
@@ -3037,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312462_25 = R[1];
-if (True == v_2312462_25) {
+Obj v_2312536_25 = R[1];
+if (True == v_2312536_25) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3049,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj v_2312718_25= co->res;
-Obj v_2312717_25 = R[1];
-Obj v_2312719_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2312720_25 = makeCons(co->gc, v_2312719_25, Nil);
-Obj v_2312721_25 = makeCons(co->gc, v_2312718_25, v_2312720_25);
-Obj v_2312722_25 = makeCons(co->gc, v_2312717_25, v_2312721_25);
-Obj v_2312723_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312722_25);
-coraReturn(co, v_2312723_25);
+Obj v_2312792_25= co->res;
+Obj v_2312791_25 = R[1];
+Obj v_2312793_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2312794_25 = makeCons(co->gc, v_2312793_25, Nil);
+Obj v_2312795_25 = makeCons(co->gc, v_2312792_25, v_2312794_25);
+Obj v_2312796_25 = makeCons(co->gc, v_2312791_25, v_2312795_25);
+Obj v_2312797_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312796_25);
+coraReturn(co, v_2312797_25);
 return;
 }
 case 2:
 {
-Obj v_2312717_25= co->res;
-R[1] = v_2312717_25;
+Obj v_2312791_25= co->res;
+R[1] = v_2312791_25;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3088,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj v_2312713_25= co->res;
+Obj v_2312787_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2312713_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2312787_25);
 return;
 }
 case 2:
 {
-Obj v_2312700_25= co->res;
+Obj v_2312774_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2312700_25) {
-Obj v_2312701_25 = PRIM_CAR(v_pat);
-Obj v_2312702_25 = PRIM_EQ(v_2312701_25, getBinding(co, packageID, 139).name);
-if (True == v_2312702_25) {
-Obj v_2312703_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2312704_25 = makeCons(co->gc, v_pat, v_2312703_25);
-Obj v_2312705_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312704_25);
-Obj v_2312706_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2312707_25 = makeCons(co->gc, v_2312706_25, Nil);
-Obj v_2312708_25 = makeCons(co->gc, v_body, v_2312707_25);
-Obj v_2312709_25 = makeCons(co->gc, v_2312705_25, v_2312708_25);
-Obj v_2312710_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312709_25);
-coraReturn(co, v_2312710_25);
-return;
-} else {
-Obj v_2312711_25 = PRIM_CAR(v_pat);
-Obj v_2312712_25 = PRIM_EQ(v_2312711_25, getBinding(co, packageID, 152).name);
-if (True == v_2312712_25) {
+if (True == v_2312774_25) {
+Obj v_2312775_25 = PRIM_CAR(v_pat);
+Obj v_2312776_25 = PRIM_EQ(v_2312775_25, getBinding(co, packageID, 139).name);
+if (True == v_2312776_25) {
+Obj v_2312777_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2312778_25 = makeCons(co->gc, v_pat, v_2312777_25);
+Obj v_2312779_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312778_25);
+Obj v_2312780_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2312781_25 = makeCons(co->gc, v_2312780_25, Nil);
+Obj v_2312782_25 = makeCons(co->gc, v_body, v_2312781_25);
+Obj v_2312783_25 = makeCons(co->gc, v_2312779_25, v_2312782_25);
+Obj v_2312784_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312783_25);
+coraReturn(co, v_2312784_25);
+return;
+} else {
+Obj v_2312785_25 = PRIM_CAR(v_pat);
+Obj v_2312786_25 = PRIM_EQ(v_2312785_25, getBinding(co, packageID, 152).name);
+if (True == v_2312786_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3135,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj v_2312685_25= co->res;
+Obj v_2312759_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2312685_25) {
-Obj v_2312686_25 = PRIM_EQ(v_pat, v_expr);
-if (True == v_2312686_25) {
+if (True == v_2312759_25) {
+Obj v_2312760_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2312760_25) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v_2312687_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2312688_25 = makeCons(co->gc, v_pat, v_2312687_25);
-Obj v_2312689_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312688_25);
-Obj v_2312690_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2312691_25 = makeCons(co->gc, v_2312690_25, Nil);
-Obj v_2312692_25 = makeCons(co->gc, v_body, v_2312691_25);
-Obj v_2312693_25 = makeCons(co->gc, v_2312689_25, v_2312692_25);
-Obj v_2312694_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312693_25);
-coraReturn(co, v_2312694_25);
+Obj v_2312761_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2312762_25 = makeCons(co->gc, v_pat, v_2312761_25);
+Obj v_2312763_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312762_25);
+Obj v_2312764_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2312765_25 = makeCons(co->gc, v_2312764_25, Nil);
+Obj v_2312766_25 = makeCons(co->gc, v_body, v_2312765_25);
+Obj v_2312767_25 = makeCons(co->gc, v_2312763_25, v_2312766_25);
+Obj v_2312768_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312767_25);
+coraReturn(co, v_2312768_25);
 return;
 }
 } else {
-Obj v_2312695_25 = primIsSymbol(v_pat);
-if (True == v_2312695_25) {
-Obj v_2312696_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2312697_25 = makeCons(co->gc, v_expr, v_2312696_25);
-Obj v_2312698_25 = makeCons(co->gc, v_pat, v_2312697_25);
-Obj v_2312699_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312698_25);
-coraReturn(co, v_2312699_25);
+Obj v_2312769_25 = primIsSymbol(v_pat);
+if (True == v_2312769_25) {
+Obj v_2312770_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2312771_25 = makeCons(co->gc, v_expr, v_2312770_25);
+Obj v_2312772_25 = makeCons(co->gc, v_pat, v_2312771_25);
+Obj v_2312773_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312772_25);
+coraReturn(co, v_2312773_25);
 return;
 } else {
 R[1] = v_expr;
@@ -3192,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj v_2312682_25= co->res;
+Obj v_2312756_25= co->res;
 Obj v_x = R[1];
-if (True == v_2312682_25) {
-Obj v_2312683_25 = primIsSymbol(v_x);
-Obj v_2312684_25 = primNot(v_2312683_25);
-if (True == v_2312684_25) {
+if (True == v_2312756_25) {
+Obj v_2312757_25 = primIsSymbol(v_x);
+Obj v_2312758_25 = primNot(v_2312757_25);
+if (True == v_2312758_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3230,40 +3231,40 @@ return;
 }
 case 1:
 {
-Obj v_2312661_25= co->res;
+Obj v_2312735_25= co->res;
 Obj v_x = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_y = v_2312661_25;
-Obj v_2312459_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
-Obj v_2312678_25 = PRIM_ISCONS(v_expr);
-if (True == v_2312678_25) {
-Obj v_2312679_25 = PRIM_CAR(v_expr);
-Obj v_2312680_25 = PRIM_EQ(v_2312679_25, getBinding(co, packageID, 152).name);
-if (True == v_2312680_25) {
+Obj v_y = v_2312735_25;
+Obj v_2312533_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2312752_25 = PRIM_ISCONS(v_expr);
+if (True == v_2312752_25) {
+Obj v_2312753_25 = PRIM_CAR(v_expr);
+Obj v_2312754_25 = PRIM_EQ(v_2312753_25, getBinding(co, packageID, 152).name);
+if (True == v_2312754_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312459_25, True);
+coraCall1(co, v_2312533_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312459_25, False);
+coraCall1(co, v_2312533_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312459_25, False);
+coraCall1(co, v_2312533_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312660_25= co->res;
+Obj v_2312734_25= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_x = v_2312660_25;
+Obj v_x = v_2312734_25;
 R[1] = v_x;
 R[2] = v_body;
 R[3] = v_cc;
@@ -3279,38 +3280,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312460_25 = R[1];
-if (True == v_2312460_25) {
+Obj v_2312534_25 = R[1];
+if (True == v_2312534_25) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2312665_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312666_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2312665_25);
-Obj v_2312667_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312668_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2312667_25);
-Obj v_2312669_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312670_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2312669_25);
-R[1] = v_2312668_25;
-R[2] = v_2312666_25;
+Obj v_2312739_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312740_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2312739_25);
+Obj v_2312741_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312742_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2312741_25);
+Obj v_2312743_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312744_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2312743_25);
+R[1] = v_2312742_25;
+R[2] = v_2312740_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2312670_25, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2312744_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v_2312664_25= co->res;
+Obj v_2312738_25= co->res;
 Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2312664_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2312738_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v_2312663_25= co->res;
+Obj v_2312737_25= co->res;
 Obj v_e1 = R[1];
-Obj v_e2 = v_2312663_25;
+Obj v_e2 = v_2312737_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3318,8 +3319,8 @@ return;
 }
 case 3:
 {
-Obj v_2312662_25= co->res;
-Obj v_e1 = v_2312662_25;
+Obj v_2312736_25= co->res;
+Obj v_e1 = v_2312736_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3327,24 +3328,24 @@ return;
 }
 case 4:
 {
-Obj v_2312672_25= co->res;
-Obj v_2312666_25 = R[1];
-Obj v_2312673_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2312674_25 = makeCons(co->gc, v_2312673_25, Nil);
-Obj v_2312675_25 = makeCons(co->gc, v_2312672_25, v_2312674_25);
-Obj v_2312676_25 = makeCons(co->gc, v_2312666_25, v_2312675_25);
-Obj v_2312677_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312676_25);
-coraReturn(co, v_2312677_25);
+Obj v_2312746_25= co->res;
+Obj v_2312740_25 = R[1];
+Obj v_2312747_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2312748_25 = makeCons(co->gc, v_2312747_25, Nil);
+Obj v_2312749_25 = makeCons(co->gc, v_2312746_25, v_2312748_25);
+Obj v_2312750_25 = makeCons(co->gc, v_2312740_25, v_2312749_25);
+Obj v_2312751_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312750_25);
+coraReturn(co, v_2312751_25);
 return;
 }
 case 5:
 {
-Obj v_2312671_25= co->res;
-Obj v_2312668_25 = R[1];
-Obj v_2312666_25 = R[2];
-R[1] = v_2312666_25;
+Obj v_2312745_25= co->res;
+Obj v_2312742_25 = R[1];
+Obj v_2312740_25 = R[2];
+R[1] = v_2312740_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2312668_25, v_2312671_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2312742_25, v_2312745_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312658_25 = PRIM_CDR(v_exp);
+Obj v_2312732_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312658_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312732_25);
 return;
 }
 }
@@ -3368,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v_2312648_25 = PRIM_CDR(v_pat);
+Obj v_2312722_25 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312648_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312722_25);
 return;
 }
 case 1:
 {
-Obj v_2312653_25= co->res;
-Obj v_2312651_25 = R[1];
-Obj v_2312654_25 = makeCons(co->gc, v_2312653_25, Nil);
-Obj v_2312655_25 = makeCons(co->gc, v_2312651_25, v_2312654_25);
-Obj v_2312656_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312655_25);
-coraReturn(co, v_2312656_25);
+Obj v_2312727_25= co->res;
+Obj v_2312725_25 = R[1];
+Obj v_2312728_25 = makeCons(co->gc, v_2312727_25, Nil);
+Obj v_2312729_25 = makeCons(co->gc, v_2312725_25, v_2312728_25);
+Obj v_2312730_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312729_25);
+coraReturn(co, v_2312730_25);
 return;
 }
 case 2:
 {
-Obj v_2312649_25= co->res;
+Obj v_2312723_25= co->res;
 Obj v_pat = R[1];
-if (True == v_2312649_25) {
-Obj v_2312650_25 = PRIM_CAR(v_pat);
-coraReturn(co, v_2312650_25);
+if (True == v_2312723_25) {
+Obj v_2312724_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2312724_25);
 return;
 } else {
-Obj v_2312651_25 = PRIM_CAR(v_pat);
-Obj v_2312652_25 = PRIM_CDR(v_pat);
-R[1] = v_2312651_25;
+Obj v_2312725_25 = PRIM_CAR(v_pat);
+Obj v_2312726_25 = PRIM_CDR(v_pat);
+R[1] = v_2312725_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312652_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312726_25);
 return;
 }
 }
@@ -3409,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312645_25 = PRIM_EQ(v_x, True);
-if (True == v_2312645_25) {
+Obj v_2312719_25 = PRIM_EQ(v_x, True);
+if (True == v_2312719_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312646_25 = PRIM_EQ(v_x, False);
-if (True == v_2312646_25) {
+Obj v_2312720_25 = PRIM_EQ(v_x, False);
+if (True == v_2312720_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312643_25 = PRIM_CDR(v_exp);
+Obj v_2312717_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312643_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312717_25);
 return;
 }
 }
@@ -3445,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2312631_25 = PRIM_EQ(Nil, v_l);
-if (True == v_2312631_25) {
+Obj v_2312705_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2312705_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312632_25 = PRIM_CAR(v_l);
-Obj v_2312633_25 = PRIM_EQ(v_2312632_25, False);
-if (True == v_2312633_25) {
+Obj v_2312706_25 = PRIM_CAR(v_l);
+Obj v_2312707_25 = PRIM_EQ(v_2312706_25, False);
+if (True == v_2312707_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312634_25 = PRIM_CDR(v_l);
+Obj v_2312708_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312634_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312708_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312635_25= co->res;
+Obj v_2312709_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2312635_25;
-Obj v_2312636_25 = PRIM_EQ(v_more, False);
-if (True == v_2312636_25) {
+Obj v_more = v_2312709_25;
+Obj v_2312710_25 = PRIM_EQ(v_more, False);
+if (True == v_2312710_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312637_25 = PRIM_CAR(v_l);
-Obj v_2312638_25 = makeCons(co->gc, False, Nil);
-Obj v_2312639_25 = makeCons(co->gc, v_more, v_2312638_25);
-Obj v_2312640_25 = makeCons(co->gc, v_2312637_25, v_2312639_25);
-Obj v_2312641_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312640_25);
-coraReturn(co, v_2312641_25);
+Obj v_2312711_25 = PRIM_CAR(v_l);
+Obj v_2312712_25 = makeCons(co->gc, False, Nil);
+Obj v_2312713_25 = makeCons(co->gc, v_more, v_2312712_25);
+Obj v_2312714_25 = makeCons(co->gc, v_2312711_25, v_2312713_25);
+Obj v_2312715_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312714_25);
+coraReturn(co, v_2312715_25);
 return;
 }
 }
@@ -3491,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312629_25 = PRIM_CDR(v_exp);
+Obj v_2312703_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312629_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312703_25);
 return;
 }
 }
@@ -3504,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2312617_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2312617_25) {
+Obj v_2312691_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2312691_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312618_25 = PRIM_CAR(v_l);
-Obj v_2312619_25 = PRIM_EQ(v_2312618_25, True);
-if (True == v_2312619_25) {
+Obj v_2312692_25 = PRIM_CAR(v_l);
+Obj v_2312693_25 = PRIM_EQ(v_2312692_25, True);
+if (True == v_2312693_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312620_25 = PRIM_CDR(v_l);
+Obj v_2312694_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312620_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312694_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312621_25= co->res;
+Obj v_2312695_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2312621_25;
-Obj v_2312622_25 = PRIM_EQ(v_more, True);
-if (True == v_2312622_25) {
+Obj v_more = v_2312695_25;
+Obj v_2312696_25 = PRIM_EQ(v_more, True);
+if (True == v_2312696_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312623_25 = PRIM_CAR(v_l);
-Obj v_2312624_25 = makeCons(co->gc, v_more, Nil);
-Obj v_2312625_25 = makeCons(co->gc, True, v_2312624_25);
-Obj v_2312626_25 = makeCons(co->gc, v_2312623_25, v_2312625_25);
-Obj v_2312627_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312626_25);
-coraReturn(co, v_2312627_25);
+Obj v_2312697_25 = PRIM_CAR(v_l);
+Obj v_2312698_25 = makeCons(co->gc, v_more, Nil);
+Obj v_2312699_25 = makeCons(co->gc, True, v_2312698_25);
+Obj v_2312700_25 = makeCons(co->gc, v_2312697_25, v_2312699_25);
+Obj v_2312701_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312700_25);
+coraReturn(co, v_2312701_25);
 return;
 }
 }
@@ -3550,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312603_25 = PRIM_CDR(v_exp);
-Obj v_2312604_25 = PRIM_EQ(Nil, v_2312603_25);
-if (True == v_2312604_25) {
-Obj v_2312605_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v_2312606_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312605_25);
-coraReturn(co, v_2312606_25);
+Obj v_2312677_25 = PRIM_CDR(v_exp);
+Obj v_2312678_25 = PRIM_EQ(Nil, v_2312677_25);
+if (True == v_2312678_25) {
+Obj v_2312679_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2312680_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312679_25);
+coraReturn(co, v_2312680_25);
 return;
 } else {
 R[1] = v_exp;
@@ -3566,36 +3567,36 @@ return;
 }
 case 1:
 {
-Obj v_2312610_25= co->res;
-Obj v_2312609_25 = R[1];
-Obj v_2312608_25 = R[2];
-Obj v_2312611_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2312610_25);
-Obj v_2312612_25 = makeCons(co->gc, v_2312611_25, Nil);
-Obj v_2312613_25 = makeCons(co->gc, v_2312609_25, v_2312612_25);
-Obj v_2312614_25 = makeCons(co->gc, v_2312608_25, v_2312613_25);
-Obj v_2312615_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312614_25);
-coraReturn(co, v_2312615_25);
+Obj v_2312684_25= co->res;
+Obj v_2312683_25 = R[1];
+Obj v_2312682_25 = R[2];
+Obj v_2312685_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2312684_25);
+Obj v_2312686_25 = makeCons(co->gc, v_2312685_25, Nil);
+Obj v_2312687_25 = makeCons(co->gc, v_2312683_25, v_2312686_25);
+Obj v_2312688_25 = makeCons(co->gc, v_2312682_25, v_2312687_25);
+Obj v_2312689_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312688_25);
+coraReturn(co, v_2312689_25);
 return;
 }
 case 2:
 {
-Obj v_2312609_25= co->res;
+Obj v_2312683_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312608_25 = R[2];
-R[1] = v_2312609_25;
-R[2] = v_2312608_25;
+Obj v_2312682_25 = R[2];
+R[1] = v_2312683_25;
+R[2] = v_2312682_25;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312607_25= co->res;
+Obj v_2312681_25= co->res;
 Obj v_exp = R[1];
-Obj v_curr = v_2312607_25;
-Obj v_2312608_25 = PRIM_CAR(v_curr);
+Obj v_curr = v_2312681_25;
+Obj v_2312682_25 = PRIM_CAR(v_curr);
 R[1] = v_exp;
-R[2] = v_2312608_25;
+R[2] = v_2312682_25;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
 return;
@@ -3608,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312601_25 = PRIM_CDR(v_exp);
+Obj v_2312675_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312601_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312675_25);
 return;
 }
 }
@@ -3621,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312589_25 = PRIM_CDR(v_exp);
+Obj v_2312663_25 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312589_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312663_25);
 return;
 }
 case 1:
 {
-Obj v_2312595_25= co->res;
-Obj v_2312593_25 = R[1];
-Obj v_2312592_25 = R[2];
-Obj v_2312596_25 = makeCons(co->gc, v_2312595_25, Nil);
-Obj v_2312597_25 = makeCons(co->gc, v_2312593_25, v_2312596_25);
-Obj v_2312598_25 = makeCons(co->gc, v_2312592_25, v_2312597_25);
-Obj v_2312599_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312598_25);
-coraReturn(co, v_2312599_25);
+Obj v_2312669_25= co->res;
+Obj v_2312667_25 = R[1];
+Obj v_2312666_25 = R[2];
+Obj v_2312670_25 = makeCons(co->gc, v_2312669_25, Nil);
+Obj v_2312671_25 = makeCons(co->gc, v_2312667_25, v_2312670_25);
+Obj v_2312672_25 = makeCons(co->gc, v_2312666_25, v_2312671_25);
+Obj v_2312673_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312672_25);
+coraReturn(co, v_2312673_25);
 return;
 }
 case 2:
 {
-Obj v_2312594_25= co->res;
-Obj v_2312593_25 = R[1];
-Obj v_2312592_25 = R[2];
-R[1] = v_2312593_25;
-R[2] = v_2312592_25;
+Obj v_2312668_25= co->res;
+Obj v_2312667_25 = R[1];
+Obj v_2312666_25 = R[2];
+R[1] = v_2312667_25;
+R[2] = v_2312666_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312594_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312668_25);
 return;
 }
 case 3:
 {
-Obj v_2312593_25= co->res;
+Obj v_2312667_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312592_25 = R[2];
-R[1] = v_2312593_25;
-R[2] = v_2312592_25;
+Obj v_2312666_25 = R[2];
+R[1] = v_2312667_25;
+R[2] = v_2312666_25;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2312590_25= co->res;
+Obj v_2312664_25= co->res;
 Obj v_exp = R[1];
-if (True == v_2312590_25) {
-Obj v_2312591_25 = PRIM_CAR(v_exp);
-coraReturn(co, v_2312591_25);
+if (True == v_2312664_25) {
+Obj v_2312665_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2312665_25);
 return;
 } else {
-Obj v_2312592_25 = PRIM_CAR(v_exp);
+Obj v_2312666_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2312592_25;
+R[2] = v_2312666_25;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3686,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312586_25 = PRIM_ISCONS(v_x);
-Obj v_2312587_25 = primNot(v_2312586_25);
-coraReturn(co, v_2312587_25);
+Obj v_2312660_25 = PRIM_ISCONS(v_x);
+Obj v_2312661_25 = primNot(v_2312660_25);
+coraReturn(co, v_2312661_25);
 return;
 }
 }
@@ -3700,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v_2312581_25 = PRIM_ISCONS(v_l);
-if (True == v_2312581_25) {
-Obj v_2312582_25 = PRIM_CAR(v_l);
-Obj v_2312583_25 = PRIM_EQ(v_2312582_25, v_x);
-if (True == v_2312583_25) {
+Obj v_2312655_25 = PRIM_ISCONS(v_l);
+if (True == v_2312655_25) {
+Obj v_2312656_25 = PRIM_CAR(v_l);
+Obj v_2312657_25 = PRIM_EQ(v_2312656_25, v_x);
+if (True == v_2312657_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312584_25 = PRIM_CDR(v_l);
+Obj v_2312658_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2312584_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2312658_25);
 return;
 }
 } else {
@@ -3733,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj v_2312573_25= co->res;
-Obj v_2312572_25 = R[1];
-Obj v_2312571_25 = R[2];
-Obj v_2312574_25 = makeCons(co->gc, v_2312573_25, Nil);
-Obj v_2312575_25 = makeCons(co->gc, v_2312572_25, v_2312574_25);
-Obj v_2312576_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312575_25);
-Obj v_2312577_25 = makeCons(co->gc, v_2312576_25, Nil);
-Obj v_2312578_25 = makeCons(co->gc, v_2312571_25, v_2312577_25);
-Obj v_2312579_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312578_25);
-coraReturn(co, v_2312579_25);
+Obj v_2312647_25= co->res;
+Obj v_2312646_25 = R[1];
+Obj v_2312645_25 = R[2];
+Obj v_2312648_25 = makeCons(co->gc, v_2312647_25, Nil);
+Obj v_2312649_25 = makeCons(co->gc, v_2312646_25, v_2312648_25);
+Obj v_2312650_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312649_25);
+Obj v_2312651_25 = makeCons(co->gc, v_2312650_25, Nil);
+Obj v_2312652_25 = makeCons(co->gc, v_2312645_25, v_2312651_25);
+Obj v_2312653_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312652_25);
+coraReturn(co, v_2312653_25);
 return;
 }
 case 2:
 {
-Obj v_2312572_25= co->res;
+Obj v_2312646_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312571_25 = R[2];
-R[1] = v_2312572_25;
-R[2] = v_2312571_25;
+Obj v_2312645_25 = R[2];
+R[1] = v_2312646_25;
+R[2] = v_2312645_25;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312571_25= co->res;
+Obj v_2312645_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v_2312571_25;
+R[2] = v_2312645_25;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3774,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312569_25 = PRIM_CDR(v_exp);
+Obj v_2312643_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312569_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312643_25);
 return;
 }
 }
@@ -3794,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj v_2312561_25= co->res;
-Obj v_2312560_25 = R[1];
-Obj v_2312559_25 = R[2];
-Obj v_2312562_25 = makeCons(co->gc, v_2312560_25, v_2312561_25);
-Obj v_2312563_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312562_25);
-Obj v_2312564_25 = makeCons(co->gc, v_2312563_25, Nil);
-Obj v_2312565_25 = makeCons(co->gc, v_2312559_25, v_2312564_25);
-Obj v_2312566_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2312565_25);
-coraReturn(co, v_2312566_25);
+Obj v_2312635_25= co->res;
+Obj v_2312634_25 = R[1];
+Obj v_2312633_25 = R[2];
+Obj v_2312636_25 = makeCons(co->gc, v_2312634_25, v_2312635_25);
+Obj v_2312637_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312636_25);
+Obj v_2312638_25 = makeCons(co->gc, v_2312637_25, Nil);
+Obj v_2312639_25 = makeCons(co->gc, v_2312633_25, v_2312638_25);
+Obj v_2312640_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2312639_25);
+coraReturn(co, v_2312640_25);
 return;
 }
 case 2:
 {
-Obj v_2312560_25= co->res;
+Obj v_2312634_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312559_25 = R[2];
-R[1] = v_2312560_25;
-R[2] = v_2312559_25;
+Obj v_2312633_25 = R[2];
+R[1] = v_2312634_25;
+R[2] = v_2312633_25;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312557_25= co->res;
+Obj v_2312631_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312558_25 = makeCons(co->gc, v_2312557_25, Nil);
-Obj v_2312559_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312558_25);
+Obj v_2312632_25 = makeCons(co->gc, v_2312631_25, Nil);
+Obj v_2312633_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312632_25);
 R[1] = v_exp;
-R[2] = v_2312559_25;
+R[2] = v_2312633_25;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3836,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312539_25 = PRIM_ISCONS(v_exp);
-if (True == v_2312539_25) {
-Obj v_2312540_25 = PRIM_CAR(v_exp);
-Obj v_2312541_25 = PRIM_EQ(v_2312540_25, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v_2312541_25) {
-Obj v_2312542_25 = PRIM_CDR(v_exp);
-coraReturn(co, v_2312542_25);
-return;
-} else {
-Obj v_2312543_25 = PRIM_CAR(v_exp);
-Obj v_2312544_25 = PRIM_EQ(v_2312543_25, getBinding(co, packageID, 140).name);
-if (True == v_2312544_25) {
+Obj v_2312613_25 = PRIM_ISCONS(v_exp);
+if (True == v_2312613_25) {
+Obj v_2312614_25 = PRIM_CAR(v_exp);
+Obj v_2312615_25 = PRIM_EQ(v_2312614_25, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v_2312615_25) {
+Obj v_2312616_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2312616_25);
+return;
+} else {
+Obj v_2312617_25 = PRIM_CAR(v_exp);
+Obj v_2312618_25 = PRIM_EQ(v_2312617_25, getBinding(co, packageID, 140).name);
+if (True == v_2312618_25) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v_2312551_25 = PRIM_CAR(v_exp);
-Obj v_2312552_25 = PRIM_EQ(v_2312551_25, getBinding(co, packageID, 139).name);
-if (True == v_2312552_25) {
+Obj v_2312625_25 = PRIM_CAR(v_exp);
+Obj v_2312626_25 = PRIM_EQ(v_2312625_25, getBinding(co, packageID, 139).name);
+if (True == v_2312626_25) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3873,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj v_2312547_25= co->res;
-Obj v_2312545_25 = R[1];
-Obj v_2312548_25 = makeCons(co->gc, v_2312547_25, Nil);
-Obj v_2312549_25 = makeCons(co->gc, v_2312545_25, v_2312548_25);
-Obj v_2312550_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312549_25);
-coraReturn(co, v_2312550_25);
+Obj v_2312621_25= co->res;
+Obj v_2312619_25 = R[1];
+Obj v_2312622_25 = makeCons(co->gc, v_2312621_25, Nil);
+Obj v_2312623_25 = makeCons(co->gc, v_2312619_25, v_2312622_25);
+Obj v_2312624_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312623_25);
+coraReturn(co, v_2312624_25);
 return;
 }
 case 2:
 {
-Obj v_2312546_25= co->res;
-Obj v_2312545_25 = R[1];
-R[1] = v_2312545_25;
+Obj v_2312620_25= co->res;
+Obj v_2312619_25 = R[1];
+R[1] = v_2312619_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2312546_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2312620_25);
 return;
 }
 case 3:
 {
-Obj v_2312545_25= co->res;
+Obj v_2312619_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2312545_25;
+R[1] = v_2312619_25;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2312554_25= co->res;
+Obj v_2312628_25= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2312554_25);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2312628_25);
 return;
 }
 }
@@ -3915,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v_2312553_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v_2312553_25) {
+Obj v_2312627_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2312627_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3947,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v_2312529_25 = PRIM_EQ(Nil, v_macros);
-if (True == v_2312529_25) {
+Obj v_2312603_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2312603_25) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v_2312536_25 = PRIM_CAR(v_macros);
+Obj v_2312610_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2312536_25);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2312610_25);
 return;
 }
 }
@@ -3966,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v_2312457_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2312532_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2312532_25) {
-Obj v_2312533_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2312534_25 = PRIM_CAR(v_item);
-Obj v_2312535_25 = PRIM_EQ(v_2312533_25, v_2312534_25);
-if (True == v_2312535_25) {
+Obj v_2312531_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2312606_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2312606_25) {
+Obj v_2312607_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2312608_25 = PRIM_CAR(v_item);
+Obj v_2312609_25 = PRIM_EQ(v_2312607_25, v_2312608_25);
+if (True == v_2312609_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312457_25, True);
+coraCall1(co, v_2312531_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312457_25, False);
+coraCall1(co, v_2312531_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312457_25, False);
+coraCall1(co, v_2312531_25, False);
 return;
 }
 }
@@ -3994,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312458_25 = R[1];
-if (True == v_2312458_25) {
-Obj v_2312530_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312532_25 = R[1];
+if (True == v_2312532_25) {
+Obj v_2312604_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v_2312530_25, closureRef(R[0], 1));
+coraCall1(co, v_2312604_25, closureRef(R[0], 1));
 return;
 } else {
-Obj v_2312531_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2312605_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2312531_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2312605_25);
 return;
 }
 }
@@ -4016,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v_2312525_25 = makeCons(co->gc, v_n, v_v);
-Obj v_2312526_25 = makeCons(co->gc, v_2312525_25, globalRef(co, getBinding(co, packageID, 146)));
-Obj v_2312527_25 = primSet(co, getBinding(co, packageID, 146).name, v_2312526_25);
-coraReturn(co, v_2312527_25);
+Obj v_2312599_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2312600_25 = makeCons(co->gc, v_2312599_25, globalRef(co, getBinding(co, packageID, 146)));
+Obj v_2312601_25 = primSet(co, getBinding(co, packageID, 146).name, v_2312600_25);
+coraReturn(co, v_2312601_25);
 return;
 }
 }
@@ -4045,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v_2312515_25 = PRIM_ISCONS(v_l);
-if (True == v_2312515_25) {
-Obj v_2312516_25 = PRIM_CAR(v_l);
+Obj v_2312589_25 = PRIM_ISCONS(v_l);
+if (True == v_2312589_25) {
+Obj v_2312590_25 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v_2312516_25);
+coraCall1(co, v_f, v_2312590_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -4062,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj v_2312517_25= co->res;
+Obj v_2312591_25= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v_2312518_25 = makeCons(co->gc, v_2312517_25, v_res);
-Obj v_2312519_25 = PRIM_CDR(v_l);
+Obj v_2312592_25 = makeCons(co->gc, v_2312591_25, v_res);
+Obj v_2312593_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2312518_25, v_f, v_2312519_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2312592_25, v_f, v_2312593_25);
 return;
 }
 }
@@ -4081,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v_2312508_25 = PRIM_ISCONS(v_l);
-if (True == v_2312508_25) {
-Obj v_2312509_25 = PRIM_CAR(v_l);
-Obj v_2312510_25 = makeCons(co->gc, v_2312509_25, v_res);
-Obj v_2312511_25 = PRIM_CDR(v_l);
+Obj v_2312582_25 = PRIM_ISCONS(v_l);
+if (True == v_2312582_25) {
+Obj v_2312583_25 = PRIM_CAR(v_l);
+Obj v_2312584_25 = makeCons(co->gc, v_2312583_25, v_res);
+Obj v_2312585_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2312510_25, v_2312511_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2312584_25, v_2312585_25);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4102,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312506_25 = PRIM_ISCONS(v_x);
-coraReturn(co, v_2312506_25);
+Obj v_2312580_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2312580_25);
 return;
 }
 }
@@ -4114,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312498_25 = PRIM_ISCONS(v_exp);
-if (True == v_2312498_25) {
-Obj v_2312499_25 = PRIM_CAR(v_exp);
-Obj v_2312500_25 = PRIM_CDR(v_exp);
-R[1] = v_2312499_25;
+Obj v_2312572_25 = PRIM_ISCONS(v_exp);
+if (True == v_2312572_25) {
+Obj v_2312573_25 = PRIM_CAR(v_exp);
+Obj v_2312574_25 = PRIM_CDR(v_exp);
+R[1] = v_2312573_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312500_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312574_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj v_2312501_25= co->res;
-Obj v_2312499_25 = R[1];
-Obj v_2312502_25 = makeCons(co->gc, v_2312501_25, Nil);
-Obj v_2312503_25 = makeCons(co->gc, v_2312499_25, v_2312502_25);
-Obj v_2312504_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312503_25);
-coraReturn(co, v_2312504_25);
+Obj v_2312575_25= co->res;
+Obj v_2312573_25 = R[1];
+Obj v_2312576_25 = makeCons(co->gc, v_2312575_25, Nil);
+Obj v_2312577_25 = makeCons(co->gc, v_2312573_25, v_2312576_25);
+Obj v_2312578_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312577_25);
+coraReturn(co, v_2312578_25);
 return;
 }
 }
@@ -4145,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312494_25 = PRIM_CDR(v_x);
-Obj v_2312495_25 = PRIM_CDR(v_2312494_25);
-Obj v_2312496_25 = PRIM_CDR(v_2312495_25);
-coraReturn(co, v_2312496_25);
+Obj v_2312568_25 = PRIM_CDR(v_x);
+Obj v_2312569_25 = PRIM_CDR(v_2312568_25);
+Obj v_2312570_25 = PRIM_CDR(v_2312569_25);
+coraReturn(co, v_2312570_25);
 return;
 }
 }
@@ -4159,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312489_25 = PRIM_CDR(v_x);
-Obj v_2312490_25 = PRIM_CDR(v_2312489_25);
-Obj v_2312491_25 = PRIM_CDR(v_2312490_25);
-Obj v_2312492_25 = PRIM_CAR(v_2312491_25);
-coraReturn(co, v_2312492_25);
+Obj v_2312563_25 = PRIM_CDR(v_x);
+Obj v_2312564_25 = PRIM_CDR(v_2312563_25);
+Obj v_2312565_25 = PRIM_CDR(v_2312564_25);
+Obj v_2312566_25 = PRIM_CAR(v_2312565_25);
+coraReturn(co, v_2312566_25);
 return;
 }
 }
@@ -4174,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312485_25 = PRIM_CDR(v_x);
-Obj v_2312486_25 = PRIM_CDR(v_2312485_25);
-Obj v_2312487_25 = PRIM_CAR(v_2312486_25);
-coraReturn(co, v_2312487_25);
+Obj v_2312559_25 = PRIM_CDR(v_x);
+Obj v_2312560_25 = PRIM_CDR(v_2312559_25);
+Obj v_2312561_25 = PRIM_CAR(v_2312560_25);
+coraReturn(co, v_2312561_25);
 return;
 }
 }
@@ -4188,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312482_25 = PRIM_CDR(v_x);
-Obj v_2312483_25 = PRIM_CDR(v_2312482_25);
-coraReturn(co, v_2312483_25);
+Obj v_2312556_25 = PRIM_CDR(v_x);
+Obj v_2312557_25 = PRIM_CDR(v_2312556_25);
+coraReturn(co, v_2312557_25);
 return;
 }
 }
@@ -4201,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312479_25 = PRIM_CAR(v_x);
-Obj v_2312480_25 = PRIM_CDR(v_2312479_25);
-coraReturn(co, v_2312480_25);
+Obj v_2312553_25 = PRIM_CAR(v_x);
+Obj v_2312554_25 = PRIM_CDR(v_2312553_25);
+coraReturn(co, v_2312554_25);
 return;
 }
 }
@@ -4214,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312476_25 = PRIM_CAR(v_x);
-Obj v_2312477_25 = PRIM_CAR(v_2312476_25);
-coraReturn(co, v_2312477_25);
+Obj v_2312550_25 = PRIM_CAR(v_x);
+Obj v_2312551_25 = PRIM_CAR(v_2312550_25);
+coraReturn(co, v_2312551_25);
 return;
 }
 }
@@ -4227,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312473_25 = PRIM_CDR(v_x);
-Obj v_2312474_25 = PRIM_CAR(v_2312473_25);
-coraReturn(co, v_2312474_25);
+Obj v_2312547_25 = PRIM_CDR(v_x);
+Obj v_2312548_25 = PRIM_CAR(v_2312547_25);
+coraReturn(co, v_2312548_25);
 return;
 }
 }
@@ -4240,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312471_25 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v_2312471_25);
+Obj v_2312545_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2312545_25);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index a842e6b..408adf6 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -151,7 +151,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 131);
+Binding *__symbolTable = malloc(sizeof(Binding) * 132);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
@@ -175,115 +175,117 @@ __symbolTable[19] = bindSymbol(co, intern("begin"));
 __symbolTable[20] = bindSymbol(co, intern("export"));
 __symbolTable[21] = bindSymbol(co, intern("import"));
 __symbolTable[22] = bindSymbol(co, intern("cora/lib/toc#handle-import-eagerly"));
-__symbolTable[23] = bindSymbol(co, intern("cora/lib/toc#generate-c"));
-__symbolTable[24] = bindSymbol(co, intern("cora/init#symbol->string"));
-__symbolTable[25] = bindSymbol(co, intern("cora/lib/toc#generate-entry"));
-__symbolTable[26] = bindSymbol(co, intern("cora/lib/toc#generate-toplevel-lambda"));
-__symbolTable[27] = bindSymbol(co, intern("cora/lib/toc#for-each"));
-__symbolTable[28] = bindSymbol(co, intern("cora/lib/toc#compile"));
-__symbolTable[29] = bindSymbol(co, intern("cora/init#cddr"));
-__symbolTable[30] = bindSymbol(co, intern("->"));
-__symbolTable[31] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
-__symbolTable[32] = bindSymbol(co, intern("cora/lib/toc#rewrite-->macro"));
-__symbolTable[33] = bindSymbol(co, intern("cora/init#vector"));
-__symbolTable[34] = bindSymbol(co, intern("cora/lib/toc#collect-lambda-pass"));
-__symbolTable[35] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze-pass"));
-__symbolTable[36] = bindSymbol(co, intern("cora/lib/toc#tailify-pass"));
-__symbolTable[37] = bindSymbol(co, intern("cora/lib/toc#closure-convert-pass"));
-__symbolTable[38] = bindSymbol(co, intern("cora/lib/toc#parse-pass"));
-__symbolTable[39] = bindSymbol(co, intern("cora/lib/toc#code-gen-func-declare"));
-__symbolTable[40] = bindSymbol(co, intern("cora/lib/toc#generate-cont"));
-__symbolTable[41] = bindSymbol(co, intern("cora/lib/toc/internal#escape-str"));
-__symbolTable[42] = bindSymbol(co, intern("cora/lib/toc#generate-group-name"));
-__symbolTable[43] = bindSymbol(co, intern("cora/lib/toc#generate-inst-list"));
-__symbolTable[44] = bindSymbol(co, intern("cora/lib/toc/internal#generate-sym"));
-__symbolTable[45] = bindSymbol(co, intern("cora/lib/toc#recover-from-frame"));
-__symbolTable[46] = bindSymbol(co, intern("cora/lib/toc#generate-inst"));
-__symbolTable[47] = bindSymbol(co, intern("cora/lib/toc/internal#generate-num"));
-__symbolTable[48] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"));
-__symbolTable[49] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
-__symbolTable[50] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
-__symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
-__symbolTable[52] = bindSymbol(co, intern("cora/init#value"));
-__symbolTable[53] = bindSymbol(co, intern("cora/init#vector-set!"));
-__symbolTable[54] = bindSymbol(co, intern("cora/lib/toc#append-result"));
-__symbolTable[55] = bindSymbol(co, intern("cora/init#vector-ref"));
-__symbolTable[56] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
-__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
-__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
-__symbolTable[59] = bindSymbol(co, intern("cora/init#cdddr"));
-__symbolTable[60] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
-__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
-__symbolTable[62] = bindSymbol(co, intern("%continuation"));
-__symbolTable[63] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
-__symbolTable[64] = bindSymbol(co, intern("cora/init#caar"));
-__symbolTable[65] = bindSymbol(co, intern("cora/init#pair?"));
-__symbolTable[66] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
-__symbolTable[67] = bindSymbol(co, intern("cora/init#reverse"));
-__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
-__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify"));
-__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#id"));
-__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
-__symbolTable[72] = bindSymbol(co, intern("return"));
-__symbolTable[73] = bindSymbol(co, intern("call"));
-__symbolTable[74] = bindSymbol(co, intern("tailcall"));
-__symbolTable[75] = bindSymbol(co, intern("continuation"));
-__symbolTable[76] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
-__symbolTable[77] = bindSymbol(co, intern("%closure-ref"));
-__symbolTable[78] = bindSymbol(co, intern("%closure"));
-__symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
-__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[82] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[84] = bindSymbol(co, intern("quote"));
-__symbolTable[85] = bindSymbol(co, intern("do"));
-__symbolTable[86] = bindSymbol(co, intern("let"));
-__symbolTable[87] = bindSymbol(co, intern("if"));
-__symbolTable[88] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[89] = bindSymbol(co, intern("lambda"));
-__symbolTable[90] = bindSymbol(co, intern("%builtin"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[93] = bindSymbol(co, intern("%global"));
-__symbolTable[94] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[95] = bindSymbol(co, intern("cora/init#elem?"));
-__symbolTable[96] = bindSymbol(co, intern("%const"));
-__symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[99] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[105] = bindSymbol(co, intern("string?"));
-__symbolTable[106] = bindSymbol(co, intern("integer?"));
-__symbolTable[107] = bindSymbol(co, intern("not"));
-__symbolTable[108] = bindSymbol(co, intern("symbol?"));
-__symbolTable[109] = bindSymbol(co, intern("gensym"));
-__symbolTable[110] = bindSymbol(co, intern("<"));
-__symbolTable[111] = bindSymbol(co, intern(">"));
-__symbolTable[112] = bindSymbol(co, intern("="));
-__symbolTable[113] = bindSymbol(co, intern("/"));
-__symbolTable[114] = bindSymbol(co, intern("*"));
-__symbolTable[115] = bindSymbol(co, intern("-"));
-__symbolTable[116] = bindSymbol(co, intern("+"));
-__symbolTable[117] = bindSymbol(co, intern("cons?"));
-__symbolTable[118] = bindSymbol(co, intern("cons"));
-__symbolTable[119] = bindSymbol(co, intern("cdr"));
-__symbolTable[120] = bindSymbol(co, intern("car"));
-__symbolTable[121] = bindSymbol(co, intern("set"));
-__symbolTable[122] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[23] = bindSymbol(co, intern("cora/init#cdar"));
+__symbolTable[24] = bindSymbol(co, intern("cora/lib/toc#generate-c"));
+__symbolTable[25] = bindSymbol(co, intern("cora/init#symbol->string"));
+__symbolTable[26] = bindSymbol(co, intern("cora/lib/toc#generate-entry"));
+__symbolTable[27] = bindSymbol(co, intern("cora/lib/toc#generate-toplevel-lambda"));
+__symbolTable[28] = bindSymbol(co, intern("cora/lib/toc#for-each"));
+__symbolTable[29] = bindSymbol(co, intern("cora/lib/toc#compile"));
+__symbolTable[30] = bindSymbol(co, intern("cora/init#cddr"));
+__symbolTable[31] = bindSymbol(co, intern("->"));
+__symbolTable[32] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
+__symbolTable[33] = bindSymbol(co, intern("cora/lib/toc#rewrite-->macro"));
+__symbolTable[34] = bindSymbol(co, intern("cora/init#vector"));
+__symbolTable[35] = bindSymbol(co, intern("cora/lib/toc#collect-lambda-pass"));
+__symbolTable[36] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze-pass"));
+__symbolTable[37] = bindSymbol(co, intern("cora/lib/toc#tailify-pass"));
+__symbolTable[38] = bindSymbol(co, intern("cora/lib/toc#closure-convert-pass"));
+__symbolTable[39] = bindSymbol(co, intern("cora/lib/toc#parse-pass"));
+__symbolTable[40] = bindSymbol(co, intern("cora/lib/toc#code-gen-func-declare"));
+__symbolTable[41] = bindSymbol(co, intern("cora/lib/toc#generate-cont"));
+__symbolTable[42] = bindSymbol(co, intern("cora/lib/toc/internal#escape-str"));
+__symbolTable[43] = bindSymbol(co, intern("cora/lib/toc#generate-group-name"));
+__symbolTable[44] = bindSymbol(co, intern("cora/lib/toc#generate-inst-list"));
+__symbolTable[45] = bindSymbol(co, intern("cora/lib/toc/internal#generate-sym"));
+__symbolTable[46] = bindSymbol(co, intern("cora/lib/toc#recover-from-frame"));
+__symbolTable[47] = bindSymbol(co, intern("cora/lib/toc#generate-inst"));
+__symbolTable[48] = bindSymbol(co, intern("cora/lib/toc/internal#generate-num"));
+__symbolTable[49] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"));
+__symbolTable[50] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
+__symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
+__symbolTable[52] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
+__symbolTable[53] = bindSymbol(co, intern("cora/init#value"));
+__symbolTable[54] = bindSymbol(co, intern("cora/init#vector-set!"));
+__symbolTable[55] = bindSymbol(co, intern("cora/lib/toc#append-result"));
+__symbolTable[56] = bindSymbol(co, intern("cora/init#vector-ref"));
+__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
+__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
+__symbolTable[59] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
+__symbolTable[60] = bindSymbol(co, intern("cora/init#cdddr"));
+__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
+__symbolTable[62] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
+__symbolTable[63] = bindSymbol(co, intern("%continuation"));
+__symbolTable[64] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
+__symbolTable[65] = bindSymbol(co, intern("cora/init#caar"));
+__symbolTable[66] = bindSymbol(co, intern("cora/init#pair?"));
+__symbolTable[67] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
+__symbolTable[68] = bindSymbol(co, intern("cora/init#reverse"));
+__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
+__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#tailify"));
+__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#id"));
+__symbolTable[72] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
+__symbolTable[73] = bindSymbol(co, intern("return"));
+__symbolTable[74] = bindSymbol(co, intern("call"));
+__symbolTable[75] = bindSymbol(co, intern("tailcall"));
+__symbolTable[76] = bindSymbol(co, intern("continuation"));
+__symbolTable[77] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
+__symbolTable[78] = bindSymbol(co, intern("%closure-ref"));
+__symbolTable[79] = bindSymbol(co, intern("%closure"));
+__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
+__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#diff"));
+__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[84] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[85] = bindSymbol(co, intern("quote"));
+__symbolTable[86] = bindSymbol(co, intern("do"));
+__symbolTable[87] = bindSymbol(co, intern("let"));
+__symbolTable[88] = bindSymbol(co, intern("if"));
+__symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[90] = bindSymbol(co, intern("lambda"));
+__symbolTable[91] = bindSymbol(co, intern("%builtin"));
+__symbolTable[92] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[94] = bindSymbol(co, intern("%global"));
+__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[96] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[97] = bindSymbol(co, intern("%const"));
+__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[100] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[101] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[102] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[104] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[106] = bindSymbol(co, intern("string?"));
+__symbolTable[107] = bindSymbol(co, intern("integer?"));
+__symbolTable[108] = bindSymbol(co, intern("not"));
+__symbolTable[109] = bindSymbol(co, intern("symbol?"));
+__symbolTable[110] = bindSymbol(co, intern("gensym"));
+__symbolTable[111] = bindSymbol(co, intern("<"));
+__symbolTable[112] = bindSymbol(co, intern(">"));
+__symbolTable[113] = bindSymbol(co, intern("="));
+__symbolTable[114] = bindSymbol(co, intern("/"));
+__symbolTable[115] = bindSymbol(co, intern("*"));
+__symbolTable[116] = bindSymbol(co, intern("-"));
+__symbolTable[117] = bindSymbol(co, intern("+"));
+__symbolTable[118] = bindSymbol(co, intern("cons?"));
+__symbolTable[119] = bindSymbol(co, intern("cons"));
+__symbolTable[120] = bindSymbol(co, intern("cdr"));
+__symbolTable[121] = bindSymbol(co, intern("car"));
+__symbolTable[122] = bindSymbol(co, intern("set"));
+__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[131] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
+stackAlloc(co, 1);
 co->ctx.fn = clofun144;
 co->ctx.label = 0;
 }
@@ -293,159 +295,159 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun144, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v_2318166_25= co->res;
-Obj v_2318172_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj v_2318178_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj v_2318200_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj v_2318220_25 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
-Obj v_2318230_25 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
-Obj v_2318271_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj v_2318310_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj v_2318362_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj v_2318363_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj v_2318377_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj v_2318378_25 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v_2318391_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj v_2318401_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, v_2318401_25);
+Obj v_2318240_25= co->res;
+Obj v_2318246_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj v_2318252_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v_2318274_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun113, 3, 0));
+Obj v_2318297_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun115, 4, 0));
+Obj v_2318310_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun118, 3, 0));
+Obj v_2318351_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
+Obj v_2318390_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
+Obj v_2318442_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
+Obj v_2318443_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj v_2318457_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
+Obj v_2318458_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2318471_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
+Obj v_2318481_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
+coraReturn(co, v_2318481_25);
 return;
 }
 case 2:
 {
-Obj v_2316784_25= co->res;
-Obj v_2316785_25 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj v_2316800_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v_2316806_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v_2316816_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v_2316817_25 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v_2316824_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2316825_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2316826_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316825_25);
-Obj v_2316827_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2316826_25);
-Obj v_2316828_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2316829_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316828_25);
-Obj v_2316830_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2316829_25);
-Obj v_2316831_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2316832_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316831_25);
-Obj v_2316833_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2316832_25);
-Obj v_2316834_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2316835_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316834_25);
-Obj v_2316836_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2316835_25);
-Obj v_2316837_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2316838_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316837_25);
-Obj v_2316839_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2316838_25);
-Obj v_2316840_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2316841_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316840_25);
-Obj v_2316842_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2316841_25);
-Obj v_2316843_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2316844_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316843_25);
-Obj v_2316845_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2316844_25);
-Obj v_2316846_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2316847_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316846_25);
-Obj v_2316848_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2316847_25);
-Obj v_2316849_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2316850_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316849_25);
-Obj v_2316851_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2316850_25);
-Obj v_2316852_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2316853_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316852_25);
-Obj v_2316854_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2316853_25);
-Obj v_2316855_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2316856_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316855_25);
-Obj v_2316857_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2316856_25);
-Obj v_2316858_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2316859_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316858_25);
-Obj v_2316860_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2316859_25);
-Obj v_2316861_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2316862_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2316861_25);
-Obj v_2316863_25 = makeCons(co->gc, getBinding(co, packageID, 109).name, v_2316862_25);
-Obj v_2316864_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2316865_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316864_25);
-Obj v_2316866_25 = makeCons(co->gc, getBinding(co, packageID, 108).name, v_2316865_25);
-Obj v_2316867_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2316868_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316867_25);
-Obj v_2316869_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2316868_25);
-Obj v_2316870_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2316871_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316870_25);
-Obj v_2316872_25 = makeCons(co->gc, getBinding(co, packageID, 106).name, v_2316871_25);
-Obj v_2316873_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2316874_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316873_25);
-Obj v_2316875_25 = makeCons(co->gc, getBinding(co, packageID, 105).name, v_2316874_25);
-Obj v_2316876_25 = makeCons(co->gc, v_2316875_25, Nil);
-Obj v_2316877_25 = makeCons(co->gc, v_2316872_25, v_2316876_25);
-Obj v_2316878_25 = makeCons(co->gc, v_2316869_25, v_2316877_25);
-Obj v_2316879_25 = makeCons(co->gc, v_2316866_25, v_2316878_25);
-Obj v_2316880_25 = makeCons(co->gc, v_2316863_25, v_2316879_25);
-Obj v_2316881_25 = makeCons(co->gc, v_2316860_25, v_2316880_25);
-Obj v_2316882_25 = makeCons(co->gc, v_2316857_25, v_2316881_25);
-Obj v_2316883_25 = makeCons(co->gc, v_2316854_25, v_2316882_25);
-Obj v_2316884_25 = makeCons(co->gc, v_2316851_25, v_2316883_25);
-Obj v_2316885_25 = makeCons(co->gc, v_2316848_25, v_2316884_25);
-Obj v_2316886_25 = makeCons(co->gc, v_2316845_25, v_2316885_25);
-Obj v_2316887_25 = makeCons(co->gc, v_2316842_25, v_2316886_25);
-Obj v_2316888_25 = makeCons(co->gc, v_2316839_25, v_2316887_25);
-Obj v_2316889_25 = makeCons(co->gc, v_2316836_25, v_2316888_25);
-Obj v_2316890_25 = makeCons(co->gc, v_2316833_25, v_2316889_25);
-Obj v_2316891_25 = makeCons(co->gc, v_2316830_25, v_2316890_25);
-Obj v_2316892_25 = makeCons(co->gc, v_2316827_25, v_2316891_25);
-Obj v_2316893_25 = primSet(co, getBinding(co, packageID, 122).name, v_2316892_25);
-Obj v_2316897_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2316900_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2316903_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2316908_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v_2317102_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj v_2317113_25 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj v_2317124_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj v_2317185_25 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj v_2317360_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj v_2317433_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj v_2317436_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj v_2317573_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2317596_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj v_2317673_25 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj v_2317704_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj v_2317710_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj v_2317715_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj v_2317724_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj v_2317775_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj v_2317783_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj v_2317790_25 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj v_2317795_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj v_2317801_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj v_2317802_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj v_2317809_25 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj v_2317816_25 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj v_2318103_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj v_2318117_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj v_2318139_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj v_2318141_25 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj v_2318145_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj v_2318146_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v_2318147_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj v_2318148_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj v_2318149_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v_2318156_25 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj v_2318163_25 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj v_2316858_25= co->res;
+Obj v_2316859_25 = primSet(co, getBinding(co, packageID, 130).name, Nil);
+Obj v_2316874_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2316880_25 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2316890_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2316891_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2316898_25 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2316899_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2316900_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316899_25);
+Obj v_2316901_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2316900_25);
+Obj v_2316902_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2316903_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316902_25);
+Obj v_2316904_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2316903_25);
+Obj v_2316905_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2316906_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316905_25);
+Obj v_2316907_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2316906_25);
+Obj v_2316908_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2316909_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316908_25);
+Obj v_2316910_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2316909_25);
+Obj v_2316911_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2316912_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316911_25);
+Obj v_2316913_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2316912_25);
+Obj v_2316914_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2316915_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316914_25);
+Obj v_2316916_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2316915_25);
+Obj v_2316917_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2316918_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316917_25);
+Obj v_2316919_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2316918_25);
+Obj v_2316920_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2316921_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316920_25);
+Obj v_2316922_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2316921_25);
+Obj v_2316923_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2316924_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316923_25);
+Obj v_2316925_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2316924_25);
+Obj v_2316926_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2316927_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316926_25);
+Obj v_2316928_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2316927_25);
+Obj v_2316929_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2316930_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316929_25);
+Obj v_2316931_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2316930_25);
+Obj v_2316932_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2316933_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316932_25);
+Obj v_2316934_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2316933_25);
+Obj v_2316935_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2316936_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2316935_25);
+Obj v_2316937_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2316936_25);
+Obj v_2316938_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2316939_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316938_25);
+Obj v_2316940_25 = makeCons(co->gc, getBinding(co, packageID, 109).name, v_2316939_25);
+Obj v_2316941_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2316942_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316941_25);
+Obj v_2316943_25 = makeCons(co->gc, getBinding(co, packageID, 108).name, v_2316942_25);
+Obj v_2316944_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2316945_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316944_25);
+Obj v_2316946_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2316945_25);
+Obj v_2316947_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2316948_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316947_25);
+Obj v_2316949_25 = makeCons(co->gc, getBinding(co, packageID, 106).name, v_2316948_25);
+Obj v_2316950_25 = makeCons(co->gc, v_2316949_25, Nil);
+Obj v_2316951_25 = makeCons(co->gc, v_2316946_25, v_2316950_25);
+Obj v_2316952_25 = makeCons(co->gc, v_2316943_25, v_2316951_25);
+Obj v_2316953_25 = makeCons(co->gc, v_2316940_25, v_2316952_25);
+Obj v_2316954_25 = makeCons(co->gc, v_2316937_25, v_2316953_25);
+Obj v_2316955_25 = makeCons(co->gc, v_2316934_25, v_2316954_25);
+Obj v_2316956_25 = makeCons(co->gc, v_2316931_25, v_2316955_25);
+Obj v_2316957_25 = makeCons(co->gc, v_2316928_25, v_2316956_25);
+Obj v_2316958_25 = makeCons(co->gc, v_2316925_25, v_2316957_25);
+Obj v_2316959_25 = makeCons(co->gc, v_2316922_25, v_2316958_25);
+Obj v_2316960_25 = makeCons(co->gc, v_2316919_25, v_2316959_25);
+Obj v_2316961_25 = makeCons(co->gc, v_2316916_25, v_2316960_25);
+Obj v_2316962_25 = makeCons(co->gc, v_2316913_25, v_2316961_25);
+Obj v_2316963_25 = makeCons(co->gc, v_2316910_25, v_2316962_25);
+Obj v_2316964_25 = makeCons(co->gc, v_2316907_25, v_2316963_25);
+Obj v_2316965_25 = makeCons(co->gc, v_2316904_25, v_2316964_25);
+Obj v_2316966_25 = makeCons(co->gc, v_2316901_25, v_2316965_25);
+Obj v_2316967_25 = primSet(co, getBinding(co, packageID, 123).name, v_2316966_25);
+Obj v_2316971_25 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2316974_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2316977_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2316982_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2317176_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj v_2317187_25 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj v_2317198_25 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj v_2317259_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj v_2317434_25 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj v_2317507_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun44, 2, 0));
+Obj v_2317510_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v_2317647_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2317670_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun57, 3, 0));
+Obj v_2317747_25 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun61, 2, 0));
+Obj v_2317778_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun65, 3, 0));
+Obj v_2317784_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun68, 4, 0));
+Obj v_2317789_25 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun70, 2, 0));
+Obj v_2317798_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj v_2317849_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun74, 2, 0));
+Obj v_2317857_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun75, 2, 0));
+Obj v_2317864_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2317869_25 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj v_2317875_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun78, 3, 0));
+Obj v_2317876_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun79, 2, 0));
+Obj v_2317883_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun81, 5, 0));
+Obj v_2317890_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj v_2318177_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun96, 5, 0));
+Obj v_2318191_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj v_2318213_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun100, 5, 0));
+Obj v_2318215_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun101, 2, 0));
+Obj v_2318219_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj v_2318220_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v_2318221_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun104, 1, 0));
+Obj v_2318222_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj v_2318223_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v_2318230_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun107, 1, 0));
+Obj v_2318237_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun108, 2, 0));
 saveCont(co, clofun144, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun109, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2316783_25= co->res;
+Obj v_2316857_25= co->res;
 saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v_2316782_25= co->res;
+Obj v_2316856_25= co->res;
 saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
@@ -457,19 +459,19 @@ case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v_2318392_25 = primGenSym(co);
-Obj v_globals = v_2318392_25;
-Obj v_2318393_25 = primSet(co, v_globals, Nil);
+Obj v_2318472_25 = primGenSym(co);
+Obj v_globals = v_2318472_25;
+Obj v_2318473_25 = primSet(co, v_globals, Nil);
 R[1] = v_from;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2318400_25= co->res;
+Obj v_2318480_25= co->res;
 Obj v_stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
@@ -477,32 +479,32 @@ return;
 }
 case 2:
 {
-Obj v_2318399_25= co->res;
+Obj v_2318479_25= co->res;
 Obj v_bc = R[1];
 Obj v_stream = R[2];
 R[1] = v_stream;
 saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v_stream, v_bc, v_2318399_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2318479_25);
 return;
 }
 case 3:
 {
-Obj v_2318398_25= co->res;
+Obj v_2318478_25= co->res;
 Obj v_globals = R[1];
 Obj v_bc = R[2];
-Obj v_stream = v_2318398_25;
+Obj v_stream = v_2318478_25;
 R[1] = v_bc;
 R[2] = v_stream;
 saveCont(co, clofun143, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
 return;
 }
 case 4:
 {
-Obj v_2318397_25= co->res;
+Obj v_2318477_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_bc = v_2318397_25;
+Obj v_bc = v_2318477_25;
 R[1] = v_globals;
 R[2] = v_bc;
 saveCont(co, clofun143, 3, R);
@@ -511,36 +513,36 @@ return;
 }
 case 5:
 {
-Obj v_2318396_25= co->res;
-Obj v_2318394_25 = R[1];
+Obj v_2318476_25= co->res;
+Obj v_2318474_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 saveCont(co, clofun143, 4, R);
-coraCall1(co, v_2318394_25, v_2318396_25);
+coraCall1(co, v_2318474_25, v_2318476_25);
 return;
 }
 case 6:
 {
-Obj v_2318395_25= co->res;
-Obj v_2318394_25 = R[1];
+Obj v_2318475_25= co->res;
+Obj v_2318474_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2318394_25;
+R[1] = v_2318474_25;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2318395_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2318475_25);
 return;
 }
 case 7:
 {
-Obj v_2318394_25= co->res;
+Obj v_2318474_25= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2318394_25;
+R[1] = v_2318474_25;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun143, 6, R);
@@ -561,7 +563,7 @@ return;
 }
 case 1:
 {
-Obj v_2318386_25= co->res;
+Obj v_2318466_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -569,7 +571,7 @@ return;
 }
 case 2:
 {
-Obj v_2318385_25= co->res;
+Obj v_2318465_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun142, 1, R);
@@ -578,7 +580,7 @@ return;
 }
 case 3:
 {
-Obj v_2318388_25= co->res;
+Obj v_2318468_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -586,7 +588,7 @@ return;
 }
 case 4:
 {
-Obj v_2318387_25= co->res;
+Obj v_2318467_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun142, 3, R);
@@ -595,7 +597,7 @@ return;
 }
 case 5:
 {
-Obj v_2318390_25= co->res;
+Obj v_2318470_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -603,7 +605,7 @@ return;
 }
 case 6:
 {
-Obj v_2318389_25= co->res;
+Obj v_2318469_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun142, 5, R);
@@ -612,39 +614,39 @@ return;
 }
 case 7:
 {
-Obj v_2318382_25= co->res;
-Obj v_2316780_25 = R[1];
+Obj v_2318462_25= co->res;
+Obj v_2316854_25 = R[1];
 Obj v_sexp = R[2];
-if (True == v_2318382_25) {
-Obj v_2318383_25 = PRIM_CAR(v_sexp);
-Obj v_2318384_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318383_25);
-if (True == v_2318384_25) {
+if (True == v_2318462_25) {
+Obj v_2318463_25 = PRIM_CAR(v_sexp);
+Obj v_2318464_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318463_25);
+if (True == v_2318464_25) {
 R[1] = v_sexp;
 saveCont(co, clofun142, 2, R);
-coraCall1(co, v_2316780_25, True);
+coraCall1(co, v_2316854_25, True);
 return;
 } else {
 R[1] = v_sexp;
 saveCont(co, clofun142, 4, R);
-coraCall1(co, v_2316780_25, False);
+coraCall1(co, v_2316854_25, False);
 return;
 }
 } else {
 R[1] = v_sexp;
 saveCont(co, clofun142, 6, R);
-coraCall1(co, v_2316780_25, False);
+coraCall1(co, v_2316854_25, False);
 return;
 }
 }
 case 8:
 {
-Obj v_2318379_25= co->res;
-Obj v_sexp = v_2318379_25;
-Obj v_2316780_25 = makeNative(co->gc, 2, clofun141, 1, 1, v_sexp);
-R[1] = v_2316780_25;
+Obj v_2318459_25= co->res;
+Obj v_sexp = v_2318459_25;
+Obj v_2316854_25 = makeNative(co->gc, 2, clofun141, 1, 1, v_sexp);
+R[1] = v_2316854_25;
 R[2] = v_sexp;
 saveCont(co, clofun142, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_sexp);
 return;
 }
 }
@@ -654,14 +656,14 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316781_25 = R[1];
-if (True == v_2316781_25) {
-Obj v_2318380_25 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v_2318380_25);
+Obj v_2316855_25 = R[1];
+if (True == v_2316855_25) {
+Obj v_2318460_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2318460_25);
 return;
 } else {
-Obj v_2318381_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v_2318381_25);
+Obj v_2318461_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2318461_25);
 return;
 }
 }
@@ -672,27 +674,27 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316768_25 = R[1];
-Obj v_2316769_25 = makeNative(co->gc, 1, clofun137, 0, 1, v_2316768_25);
-Obj v_2318372_25 = PRIM_ISCONS(v_2316768_25);
-if (True == v_2318372_25) {
-Obj v_2318373_25 = PRIM_CAR(v_2316768_25);
-Obj v_2318374_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318373_25);
-if (True == v_2318374_25) {
-Obj v_2318375_25 = PRIM_CDR(v_2316768_25);
-Obj v_more = v_2318375_25;
-Obj v_2318376_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
+Obj v_2316842_25 = R[1];
+Obj v_2316843_25 = makeNative(co->gc, 1, clofun137, 0, 1, v_2316842_25);
+Obj v_2318452_25 = PRIM_ISCONS(v_2316842_25);
+if (True == v_2318452_25) {
+Obj v_2318453_25 = PRIM_CAR(v_2316842_25);
+Obj v_2318454_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318453_25);
+if (True == v_2318454_25) {
+Obj v_2318455_25 = PRIM_CDR(v_2316842_25);
+Obj v_more = v_2318455_25;
+Obj v_2318456_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318376_25, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318456_25, makeNative(co->gc, 2, clofun139, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316769_25);
+coraCall0(co, v_2316843_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316769_25);
+coraCall0(co, v_2316843_25);
 return;
 }
 }
@@ -728,26 +730,26 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316770_25 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj v_2318367_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318367_25) {
-Obj v_2318368_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318369_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318368_25);
-if (True == v_2318369_25) {
-Obj v_2318370_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318370_25;
-Obj v_2318371_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
+Obj v_2316844_25 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
+Obj v_2318447_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318447_25) {
+Obj v_2318448_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318449_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318448_25);
+if (True == v_2318449_25) {
+Obj v_2318450_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318450_25;
+Obj v_2318451_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318371_25, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318451_25, makeNative(co->gc, 2, clofun136, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316770_25);
+coraCall0(co, v_2316844_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316770_25);
+coraCall0(co, v_2316844_25);
 return;
 }
 }
@@ -783,9 +785,9 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318364_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2318444_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2318364_25, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2318444_25, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
 return;
 }
 }
@@ -803,9 +805,9 @@ return;
 }
 case 1:
 {
-Obj v_2318365_25= co->res;
-Obj v_2318366_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318365_25);
-coraReturn(co, v_2318366_25);
+Obj v_2318445_25= co->res;
+Obj v_2318446_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318445_25);
+coraReturn(co, v_2318446_25);
 return;
 }
 }
@@ -819,7 +821,7 @@ Obj v_type = R[1];
 Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_type, v_code);
 return;
 } else {
 coraReturn(co, v_code);
@@ -833,50 +835,50 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316761_25 = R[1];
-Obj v_2316762_25 = R[2];
-Obj v_2316763_25 = makeNative(co->gc, 2, clofun130, 0, 2, v_2316761_25, v_2316762_25);
-Obj v_2318350_25 = PRIM_ISCONS(v_2316761_25);
-if (True == v_2318350_25) {
-Obj v_2318351_25 = PRIM_CAR(v_2316761_25);
-Obj v_2318352_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318351_25);
-if (True == v_2318352_25) {
-Obj v_2318353_25 = PRIM_CDR(v_2316761_25);
-Obj v_2318354_25 = PRIM_ISCONS(v_2318353_25);
-if (True == v_2318354_25) {
-Obj v_2318355_25 = PRIM_CDR(v_2316761_25);
-Obj v_2318356_25 = PRIM_CAR(v_2318355_25);
-Obj v_name = v_2318356_25;
-Obj v_2318357_25 = PRIM_CDR(v_2316761_25);
-Obj v_2318358_25 = PRIM_CDR(v_2318357_25);
-Obj v_more = v_2318358_25;
+Obj v_2316835_25 = R[1];
+Obj v_2316836_25 = R[2];
+Obj v_2316837_25 = makeNative(co->gc, 2, clofun130, 0, 2, v_2316835_25, v_2316836_25);
+Obj v_2318430_25 = PRIM_ISCONS(v_2316835_25);
+if (True == v_2318430_25) {
+Obj v_2318431_25 = PRIM_CAR(v_2316835_25);
+Obj v_2318432_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318431_25);
+if (True == v_2318432_25) {
+Obj v_2318433_25 = PRIM_CDR(v_2316835_25);
+Obj v_2318434_25 = PRIM_ISCONS(v_2318433_25);
+if (True == v_2318434_25) {
+Obj v_2318435_25 = PRIM_CDR(v_2316835_25);
+Obj v_2318436_25 = PRIM_CAR(v_2318435_25);
+Obj v_name = v_2318436_25;
+Obj v_2318437_25 = PRIM_CDR(v_2316835_25);
+Obj v_2318438_25 = PRIM_CDR(v_2318437_25);
+Obj v_more = v_2318438_25;
 R[1] = v_name;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2316762_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2316836_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316763_25);
+coraCall0(co, v_2316837_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316763_25);
+coraCall0(co, v_2316837_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316763_25);
+coraCall0(co, v_2316837_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318359_25= co->res;
+Obj v_2318439_25= co->res;
 Obj v_name = R[1];
-Obj v_2318360_25 = makeCons(co->gc, v_name, v_2318359_25);
-Obj v_2318361_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2318360_25);
-coraReturn(co, v_2318361_25);
+Obj v_2318440_25 = makeCons(co->gc, v_name, v_2318439_25);
+Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2318440_25);
+coraReturn(co, v_2318441_25);
 return;
 }
 }
@@ -886,69 +888,69 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316764_25 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318329_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318329_25) {
-Obj v_2318330_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318331_25 = PRIM_ISCONS(v_2318330_25);
-if (True == v_2318331_25) {
-Obj v_2318332_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318333_25 = PRIM_CAR(v_2318332_25);
-Obj v_2318334_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318333_25);
-if (True == v_2318334_25) {
-Obj v_2318335_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318336_25 = PRIM_CDR(v_2318335_25);
-Obj v_2318337_25 = PRIM_ISCONS(v_2318336_25);
-if (True == v_2318337_25) {
-Obj v_2318338_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318339_25 = PRIM_CDR(v_2318338_25);
-Obj v_2318340_25 = PRIM_CAR(v_2318339_25);
-Obj v_pkg = v_2318340_25;
-Obj v_2318341_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318342_25 = PRIM_CDR(v_2318341_25);
-Obj v_2318343_25 = PRIM_CDR(v_2318342_25);
-Obj v_2318344_25 = PRIM_EQ(Nil, v_2318343_25);
-if (True == v_2318344_25) {
-Obj v_2318345_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318345_25;
-Obj v_2318346_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2318347_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2318346_25);
-R[1] = v_2318347_25;
+Obj v_2316838_25 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318409_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318409_25) {
+Obj v_2318410_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318411_25 = PRIM_ISCONS(v_2318410_25);
+if (True == v_2318411_25) {
+Obj v_2318412_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318413_25 = PRIM_CAR(v_2318412_25);
+Obj v_2318414_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318413_25);
+if (True == v_2318414_25) {
+Obj v_2318415_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318416_25 = PRIM_CDR(v_2318415_25);
+Obj v_2318417_25 = PRIM_ISCONS(v_2318416_25);
+if (True == v_2318417_25) {
+Obj v_2318418_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318419_25 = PRIM_CDR(v_2318418_25);
+Obj v_2318420_25 = PRIM_CAR(v_2318419_25);
+Obj v_pkg = v_2318420_25;
+Obj v_2318421_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318422_25 = PRIM_CDR(v_2318421_25);
+Obj v_2318423_25 = PRIM_CDR(v_2318422_25);
+Obj v_2318424_25 = PRIM_EQ(Nil, v_2318423_25);
+if (True == v_2318424_25) {
+Obj v_2318425_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318425_25;
+Obj v_2318426_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2318427_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2318426_25);
+R[1] = v_2318427_25;
 saveCont(co, clofun130, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316764_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316764_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316764_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316764_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316764_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318348_25= co->res;
-Obj v_2318347_25 = R[1];
-Obj v_2318349_25 = makeCons(co->gc, v_2318347_25, v_2318348_25);
-coraReturn(co, v_2318349_25);
+Obj v_2318428_25= co->res;
+Obj v_2318427_25 = R[1];
+Obj v_2318429_25 = makeCons(co->gc, v_2318427_25, v_2318428_25);
+coraReturn(co, v_2318429_25);
 return;
 }
 }
@@ -958,48 +960,48 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316765_25 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318317_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318317_25) {
-Obj v_2318318_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318319_25 = PRIM_ISCONS(v_2318318_25);
-if (True == v_2318319_25) {
-Obj v_2318320_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318321_25 = PRIM_CAR(v_2318320_25);
-Obj v_2318322_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318321_25);
-if (True == v_2318322_25) {
-Obj v_2318323_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318324_25 = PRIM_CDR(v_2318323_25);
-Obj v_symbols = v_2318324_25;
-Obj v_2318325_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318325_25;
-Obj v_2318326_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
-R[1] = v_2318326_25;
+Obj v_2316839_25 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318397_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318397_25) {
+Obj v_2318398_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318399_25 = PRIM_ISCONS(v_2318398_25);
+if (True == v_2318399_25) {
+Obj v_2318400_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318401_25 = PRIM_CAR(v_2318400_25);
+Obj v_2318402_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318401_25);
+if (True == v_2318402_25) {
+Obj v_2318403_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318404_25 = PRIM_CDR(v_2318403_25);
+Obj v_symbols = v_2318404_25;
+Obj v_2318405_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318405_25;
+Obj v_2318406_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2318406_25;
 saveCont(co, clofun129, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316765_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316765_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316765_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318327_25= co->res;
-Obj v_2318326_25 = R[1];
-Obj v_2318328_25 = makeCons(co->gc, v_2318326_25, v_2318327_25);
-coraReturn(co, v_2318328_25);
+Obj v_2318407_25= co->res;
+Obj v_2318406_25 = R[1];
+Obj v_2318408_25 = makeCons(co->gc, v_2318406_25, v_2318407_25);
+coraReturn(co, v_2318408_25);
 return;
 }
 }
@@ -1009,33 +1011,33 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316766_25 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2318311_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318311_25) {
-Obj v_2318312_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318313_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318312_25);
-if (True == v_2318313_25) {
-Obj v_2318314_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318314_25;
+Obj v_2316840_25 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2318391_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318391_25) {
+Obj v_2318392_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318393_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318392_25);
+if (True == v_2318393_25) {
+Obj v_2318394_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318394_25;
 saveCont(co, clofun128, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316766_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316766_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318315_25= co->res;
-Obj v_2318316_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318315_25);
-coraReturn(co, v_2318316_25);
+Obj v_2318395_25= co->res;
+Obj v_2318396_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318395_25);
+coraReturn(co, v_2318396_25);
 return;
 }
 }
@@ -1056,73 +1058,73 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316753_25 = R[1];
-Obj v_2316754_25 = R[2];
-Obj v_2316755_25 = R[3];
-Obj v_2316756_25 = R[4];
-Obj v_2318272_25 = PRIM_EQ(Nil, v_2316753_25);
-if (True == v_2318272_25) {
-R[1] = v_2316755_25;
-R[2] = v_2316756_25;
+Obj v_2316827_25 = R[1];
+Obj v_2316828_25 = R[2];
+Obj v_2316829_25 = R[3];
+Obj v_2316830_25 = R[4];
+Obj v_2318352_25 = PRIM_EQ(Nil, v_2316827_25);
+if (True == v_2318352_25) {
+R[1] = v_2316829_25;
+R[2] = v_2316830_25;
 saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_2316754_25);
-return;
-} else {
-Obj v_2316758_25 = makeNative(co->gc, 1, clofun125, 0, 4, v_2316753_25, v_2316754_25, v_2316755_25, v_2316756_25);
-Obj v_2318299_25 = PRIM_ISCONS(v_2316753_25);
-if (True == v_2318299_25) {
-Obj v_2318300_25 = PRIM_CAR(v_2316753_25);
-Obj v_2318301_25 = PRIM_ISCONS(v_2318300_25);
-if (True == v_2318301_25) {
-Obj v_2318302_25 = PRIM_CAR(v_2316753_25);
-Obj v_2318303_25 = PRIM_CAR(v_2318302_25);
-Obj v_2318304_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2318303_25);
-if (True == v_2318304_25) {
-Obj v_2318305_25 = PRIM_CAR(v_2316753_25);
-Obj v_2318306_25 = PRIM_CDR(v_2318305_25);
-Obj v_exp = v_2318306_25;
-Obj v_2318307_25 = PRIM_CDR(v_2316753_25);
-Obj v_more = v_2318307_25;
-Obj v_2318308_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
-Obj v_2318309_25 = makeCons(co->gc, v_2318308_25, v_2316754_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316828_25);
+return;
+} else {
+Obj v_2316832_25 = makeNative(co->gc, 1, clofun125, 0, 4, v_2316827_25, v_2316828_25, v_2316829_25, v_2316830_25);
+Obj v_2318379_25 = PRIM_ISCONS(v_2316827_25);
+if (True == v_2318379_25) {
+Obj v_2318380_25 = PRIM_CAR(v_2316827_25);
+Obj v_2318381_25 = PRIM_ISCONS(v_2318380_25);
+if (True == v_2318381_25) {
+Obj v_2318382_25 = PRIM_CAR(v_2316827_25);
+Obj v_2318383_25 = PRIM_CAR(v_2318382_25);
+Obj v_2318384_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2318383_25);
+if (True == v_2318384_25) {
+Obj v_2318385_25 = PRIM_CAR(v_2316827_25);
+Obj v_2318386_25 = PRIM_CDR(v_2318385_25);
+Obj v_exp = v_2318386_25;
+Obj v_2318387_25 = PRIM_CDR(v_2316827_25);
+Obj v_more = v_2318387_25;
+Obj v_2318388_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2318389_25 = makeCons(co->gc, v_2318388_25, v_2316828_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318309_25, v_2316755_25, v_2316756_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318389_25, v_2316829_25, v_2316830_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318274_25= co->res;
-Obj v_2316756_25 = R[1];
-Obj v_2318273_25 = R[2];
+Obj v_2318354_25= co->res;
+Obj v_2316830_25 = R[1];
+Obj v_2318353_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2316756_25, v_2318273_25, v_2318274_25);
+coraCall2(co, v_2316830_25, v_2318353_25, v_2318354_25);
 return;
 }
 case 2:
 {
-Obj v_2318273_25= co->res;
-Obj v_2316755_25 = R[1];
-Obj v_2316756_25 = R[2];
-R[1] = v_2316756_25;
-R[2] = v_2318273_25;
+Obj v_2318353_25= co->res;
+Obj v_2316829_25 = R[1];
+Obj v_2316830_25 = R[2];
+R[1] = v_2316830_25;
+R[2] = v_2318353_25;
 saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_2316755_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316829_25);
 return;
 }
 }
@@ -1132,39 +1134,39 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316759_25 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318288_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318288_25) {
-Obj v_2318289_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318290_25 = PRIM_ISCONS(v_2318289_25);
-if (True == v_2318290_25) {
-Obj v_2318291_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318292_25 = PRIM_CAR(v_2318291_25);
-Obj v_2318293_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2318292_25);
-if (True == v_2318293_25) {
-Obj v_2318294_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318295_25 = PRIM_CDR(v_2318294_25);
-Obj v_exp = v_2318295_25;
-Obj v_2318296_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318296_25;
-Obj v_2318297_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
-Obj v_2318298_25 = makeCons(co->gc, v_2318297_25, closureRef(R[0], 1));
+Obj v_2316833_25 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318368_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318368_25) {
+Obj v_2318369_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318370_25 = PRIM_ISCONS(v_2318369_25);
+if (True == v_2318370_25) {
+Obj v_2318371_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318372_25 = PRIM_CAR(v_2318371_25);
+Obj v_2318373_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2318372_25);
+if (True == v_2318373_25) {
+Obj v_2318374_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318375_25 = PRIM_CDR(v_2318374_25);
+Obj v_exp = v_2318375_25;
+Obj v_2318376_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318376_25;
+Obj v_2318377_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2318378_25 = makeCons(co->gc, v_2318377_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318298_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318378_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316833_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316833_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316833_25);
 return;
 }
 }
@@ -1175,28 +1177,28 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318275_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318275_25) {
-Obj v_2318276_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_exp = v_2318276_25;
-Obj v_2318277_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318277_25;
-Obj v_2318278_25 = makeCons(co->gc, v_exp, Nil);
-Obj v_2318279_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2318278_25);
-Obj v_2318280_25 = makeCons(co->gc, v_2318279_25, Nil);
-Obj v_2318281_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2318280_25);
-Obj v_2318282_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v_2318283_25 = makeCons(co->gc, v_2318282_25, Nil);
-Obj v_2318284_25 = makeCons(co->gc, v_2318281_25, v_2318283_25);
-Obj v_2318285_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2318284_25);
-Obj v_2318286_25 = makeCons(co->gc, v_2318285_25, closureRef(R[0], 1));
-Obj v_2318287_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
+Obj v_2318355_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318355_25) {
+Obj v_2318356_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2318356_25;
+Obj v_2318357_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318357_25;
+Obj v_2318358_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2318359_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2318358_25);
+Obj v_2318360_25 = makeCons(co->gc, v_2318359_25, Nil);
+Obj v_2318361_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2318360_25);
+Obj v_2318362_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2318363_25 = makeCons(co->gc, v_2318362_25, Nil);
+Obj v_2318364_25 = makeCons(co->gc, v_2318361_25, v_2318363_25);
+Obj v_2318365_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2318364_25);
+Obj v_2318366_25 = makeCons(co->gc, v_2318365_25, closureRef(R[0], 1));
+Obj v_2318367_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318286_25, v_2318287_25, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318366_25, v_2318367_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -1207,37 +1209,37 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316747_25 = R[1];
-Obj v_2316748_25 = makeNative(co->gc, 1, clofun122, 0, 1, v_2316747_25);
-Obj v_2318262_25 = PRIM_ISCONS(v_2316747_25);
-if (True == v_2318262_25) {
-Obj v_2318263_25 = PRIM_CAR(v_2316747_25);
-Obj v_2318264_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318263_25);
-if (True == v_2318264_25) {
-Obj v_2318265_25 = PRIM_CDR(v_2316747_25);
-Obj v_2318266_25 = PRIM_ISCONS(v_2318265_25);
-if (True == v_2318266_25) {
-Obj v_2318267_25 = PRIM_CDR(v_2316747_25);
-Obj v_2318268_25 = PRIM_CAR(v_2318267_25);
-Obj v_2318269_25 = PRIM_CDR(v_2316747_25);
-Obj v_2318270_25 = PRIM_CDR(v_2318269_25);
-Obj v_remain = v_2318270_25;
+Obj v_2316821_25 = R[1];
+Obj v_2316822_25 = makeNative(co->gc, 1, clofun122, 0, 1, v_2316821_25);
+Obj v_2318342_25 = PRIM_ISCONS(v_2316821_25);
+if (True == v_2318342_25) {
+Obj v_2318343_25 = PRIM_CAR(v_2316821_25);
+Obj v_2318344_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318343_25);
+if (True == v_2318344_25) {
+Obj v_2318345_25 = PRIM_CDR(v_2316821_25);
+Obj v_2318346_25 = PRIM_ISCONS(v_2318345_25);
+if (True == v_2318346_25) {
+Obj v_2318347_25 = PRIM_CDR(v_2316821_25);
+Obj v_2318348_25 = PRIM_CAR(v_2318347_25);
+Obj v_2318349_25 = PRIM_CDR(v_2316821_25);
+Obj v_2318350_25 = PRIM_CDR(v_2318349_25);
+Obj v_remain = v_2318350_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316748_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316748_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316748_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 }
@@ -1248,25 +1250,25 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316749_25 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj v_2318258_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318258_25) {
-Obj v_2318259_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318260_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318259_25);
-if (True == v_2318260_25) {
-Obj v_2318261_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318261_25;
+Obj v_2316823_25 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
+Obj v_2318338_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318338_25) {
+Obj v_2318339_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318340_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318339_25);
+if (True == v_2318340_25) {
+Obj v_2318341_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318341_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316749_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316749_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 }
@@ -1277,36 +1279,36 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316750_25 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj v_2318249_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318249_25) {
-Obj v_2318250_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318251_25 = PRIM_ISCONS(v_2318250_25);
-if (True == v_2318251_25) {
-Obj v_2318252_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318253_25 = PRIM_CAR(v_2318252_25);
-Obj v_2318254_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318253_25);
-if (True == v_2318254_25) {
-Obj v_2318255_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318256_25 = PRIM_CDR(v_2318255_25);
-Obj v_2318257_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318257_25;
+Obj v_2316824_25 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
+Obj v_2318329_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318329_25) {
+Obj v_2318330_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318331_25 = PRIM_ISCONS(v_2318330_25);
+if (True == v_2318331_25) {
+Obj v_2318332_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318333_25 = PRIM_CAR(v_2318332_25);
+Obj v_2318334_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318333_25);
+if (True == v_2318334_25) {
+Obj v_2318335_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318336_25 = PRIM_CDR(v_2318335_25);
+Obj v_2318337_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318337_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316750_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316750_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316750_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 }
@@ -1317,64 +1319,64 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316751_25 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj v_2318231_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318231_25) {
-Obj v_2318232_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318233_25 = PRIM_ISCONS(v_2318232_25);
-if (True == v_2318233_25) {
-Obj v_2318234_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318235_25 = PRIM_CAR(v_2318234_25);
-Obj v_2318236_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318235_25);
-if (True == v_2318236_25) {
-Obj v_2318237_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318238_25 = PRIM_CDR(v_2318237_25);
-Obj v_2318239_25 = PRIM_ISCONS(v_2318238_25);
-if (True == v_2318239_25) {
-Obj v_2318240_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318241_25 = PRIM_CDR(v_2318240_25);
-Obj v_2318242_25 = PRIM_CAR(v_2318241_25);
-Obj v_pkg = v_2318242_25;
-Obj v_2318243_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318244_25 = PRIM_CDR(v_2318243_25);
-Obj v_2318245_25 = PRIM_CDR(v_2318244_25);
-Obj v_2318246_25 = PRIM_EQ(Nil, v_2318245_25);
-if (True == v_2318246_25) {
-Obj v_2318247_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318247_25;
+Obj v_2316825_25 = makeNative(co->gc, 1, clofun119, 0, 0);
+Obj v_2318311_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318311_25) {
+Obj v_2318312_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318313_25 = PRIM_ISCONS(v_2318312_25);
+if (True == v_2318313_25) {
+Obj v_2318314_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318315_25 = PRIM_CAR(v_2318314_25);
+Obj v_2318316_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318315_25);
+if (True == v_2318316_25) {
+Obj v_2318317_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318318_25 = PRIM_CDR(v_2318317_25);
+Obj v_2318319_25 = PRIM_ISCONS(v_2318318_25);
+if (True == v_2318319_25) {
+Obj v_2318320_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318321_25 = PRIM_CDR(v_2318320_25);
+Obj v_2318322_25 = PRIM_CAR(v_2318321_25);
+Obj v_pkg = v_2318322_25;
+Obj v_2318323_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318324_25 = PRIM_CDR(v_2318323_25);
+Obj v_2318325_25 = PRIM_CDR(v_2318324_25);
+Obj v_2318326_25 = PRIM_EQ(Nil, v_2318325_25);
+if (True == v_2318326_25) {
+Obj v_2318327_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318327_25;
 R[1] = v_remain;
 saveCont(co, clofun120, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_pkg);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318248_25= co->res;
+Obj v_2318328_25= co->res;
 Obj v_remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
@@ -1403,62 +1405,67 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
+saveCont(co, clofun118, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v_2318229_25= co->res;
+Obj v_2318309_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun117, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj v_2318228_25= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
+Obj v_2318308_25= co->res;
+Obj v_2318305_25 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+Obj v_bc = R[4];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun118, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v_2318228_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2318305_25, v_2318308_25);
 return;
 }
 case 3:
 {
-Obj v_2318227_25= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v_2318306_25= co->res;
+Obj v_2318305_25 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+Obj v_bc = R[4];
+Obj v_2318307_25 = PRIM_CAR(v_2318306_25);
+R[1] = v_2318305_25;
+R[2] = v_to;
+R[3] = v_globals;
+R[4] = v_bc;
 saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_2318307_25);
 return;
 }
 case 4:
 {
-Obj v_2318226_25= co->res;
+Obj v_2318305_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+R[1] = v_2318305_25;
+R[2] = v_to;
+R[3] = v_globals;
+R[4] = v_bc;
 saveCont(co, clofun118, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "\n\n"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 23)), v_bc);
 return;
 }
 case 5:
 {
-Obj v_2318223_25= co->res;
+Obj v_2318304_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1466,12 +1473,12 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, v_to), v_bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_bc);
 return;
 }
 case 6:
 {
-Obj v_2318222_25= co->res;
+Obj v_2318303_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1479,12 +1486,12 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun118, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v_2318221_25= co->res;
+Obj v_2318300_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1492,7 +1499,33 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun118, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun116, 1, 1, v_to), v_bc);
+return;
+}
+case 8:
+{
+Obj v_2318299_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun118, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
+return;
+}
+case 9:
+{
+Obj v_2318298_25= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun118, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1504,7 +1537,7 @@ case 0:
 {
 Obj v_group = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 27)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
 return;
 }
 }
@@ -1515,16 +1548,16 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v_2318224_25 = PRIM_CAR(v_group);
+Obj v_2318301_25 = PRIM_CAR(v_group);
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v_2318224_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2318301_25);
 return;
 }
 case 1:
 {
-Obj v_2318225_25= co->res;
+Obj v_2318302_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
 }
 }
@@ -1537,137 +1570,189 @@ case 0:
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
+Obj v_nframe = R[4];
 R[1] = v_globals;
-R[2] = v_label;
-R[3] = v_to;
-saveCont(co, clofun115, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun115, 14, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v_2318219_25= co->res;
+Obj v_2318296_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj v_2318218_25= co->res;
+Obj v_2318295_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun115, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2318217_25= co->res;
+Obj v_2318294_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
 saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_to, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj v_2318216_25= co->res;
+Obj v_2318293_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
 saveCont(co, clofun115, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v_2318215_25= co->res;
+Obj v_2318292_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
 saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v_2318206_25= co->res;
-Obj v_globals = R[1];
+Obj v_2318291_25= co->res;
+Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_label;
 R[2] = v_to;
 saveCont(co, clofun115, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_nframe);
 return;
 }
 case 7:
 {
-Obj v_2318205_25= co->res;
-Obj v_globals = R[1];
+Obj v_2318290_25= co->res;
+Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-R[1] = v_globals;
+R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
 saveCont(co, clofun115, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 8:
 {
-Obj v_2318204_25= co->res;
-Obj v_globals = R[1];
+Obj v_2318289_25= co->res;
+Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-R[1] = v_globals;
+R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
 saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v_2318204_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 9:
 {
-Obj v_2318203_25= co->res;
+Obj v_2318280_25= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_globals;
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
 saveCont(co, clofun115, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun114, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 10:
 {
-Obj v_2318202_25= co->res;
+Obj v_2318279_25= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v_label;
-R[3] = v_to;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun115, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 11:
 {
-Obj v_2318201_25= co->res;
+Obj v_2318278_25= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v_label;
-R[3] = v_to;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2318278_25);
+return;
+}
+case 12:
+{
+Obj v_2318277_25= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun115, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_globals);
+return;
+}
+case 13:
+{
+Obj v_2318276_25= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun115, 12, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+return;
+}
+case 14:
+{
+Obj v_2318275_25= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun115, 13, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1682,74 +1767,74 @@ Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
 saveCont(co, clofun114, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v_2318213_25= co->res;
+Obj v_2318287_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318214_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318214_25);
+Obj v_2318288_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318288_25);
 return;
 }
 case 2:
 {
-Obj v_2318212_25= co->res;
+Obj v_2318286_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun114, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v_2318211_25= co->res;
+Obj v_2318285_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_2318211_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2318285_25);
 return;
 }
 case 4:
 {
-Obj v_2318210_25= co->res;
+Obj v_2318284_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v_2318210_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2318284_25);
 return;
 }
 case 5:
 {
-Obj v_2318209_25= co->res;
+Obj v_2318283_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun114, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v_sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 25)), v_sym);
 return;
 }
 case 6:
 {
-Obj v_2318208_25= co->res;
+Obj v_2318282_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
 saveCont(co, clofun114, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v_2318207_25= co->res;
+Obj v_2318281_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
 saveCont(co, clofun114, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
@@ -1762,47 +1847,47 @@ case 0:
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v_2318179_25 = PRIM_CAR(v_group);
-Obj v_label = v_2318179_25;
+Obj v_2318253_25 = PRIM_CAR(v_group);
+Obj v_label = v_2318253_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_to;
 saveCont(co, clofun113, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_group);
 return;
 }
 case 1:
 {
-Obj v_2318199_25= co->res;
+Obj v_2318273_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj v_2318198_25= co->res;
+Obj v_2318272_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun113, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2318197_25= co->res;
+Obj v_2318271_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
 saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2318197_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun112, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2318271_25);
 return;
 }
 case 4:
 {
-Obj v_2318189_25= co->res;
+Obj v_2318263_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1812,12 +1897,12 @@ R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
 saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
 return;
 }
 case 5:
 {
-Obj v_2318188_25= co->res;
+Obj v_2318262_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1827,12 +1912,12 @@ R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
 saveCont(co, clofun113, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v_2318187_25= co->res;
+Obj v_2318261_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1845,12 +1930,12 @@ R[3] = v_lam;
 R[4] = v_to;
 saveCont(co, clofun113, 5, R);
 Obj __args[5] = {v_globals, v_label, v_params, v_to, v_first_2dstmt};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2318186_25= co->res;
+Obj v_2318260_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1865,12 +1950,12 @@ R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun113, 6, R);
 Obj __args[5] = {v_globals, v_label, Nil, v_to, v_params};
-coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v_2318185_25= co->res;
+Obj v_2318259_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1884,12 +1969,12 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun113, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v_2318184_25= co->res;
+Obj v_2318258_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1903,12 +1988,12 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun113, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v_2318183_25= co->res;
+Obj v_2318257_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1922,18 +2007,18 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun113, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v_2318182_25= co->res;
+Obj v_2318256_25= co->res;
 Obj v_params = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
 Obj v_lam = R[4];
 Obj v_to = R[5];
-Obj v_first_2dstmt = v_2318182_25;
+Obj v_first_2dstmt = v_2318256_25;
 R[1] = v_params;
 R[2] = v_first_2dstmt;
 R[3] = v_globals;
@@ -1941,39 +2026,39 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun113, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), v_to, v_label);
 return;
 }
 case 12:
 {
-Obj v_2318181_25= co->res;
+Obj v_2318255_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
-Obj v_params = v_2318181_25;
+Obj v_params = v_2318255_25;
 R[1] = v_params;
 R[2] = v_globals;
 R[3] = v_label;
 R[4] = v_lam;
 R[5] = v_to;
 saveCont(co, clofun113, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_lam);
 return;
 }
 case 13:
 {
-Obj v_2318180_25= co->res;
+Obj v_2318254_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-Obj v_lam = v_2318180_25;
+Obj v_lam = v_2318254_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
 saveCont(co, clofun113, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_lam);
 return;
 }
 }
@@ -1988,68 +2073,68 @@ Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
 saveCont(co, clofun112, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v_2318195_25= co->res;
+Obj v_2318269_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318196_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318196_25);
+Obj v_2318270_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318270_25);
 return;
 }
 case 2:
 {
-Obj v_2318194_25= co->res;
+Obj v_2318268_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun112, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2318193_25= co->res;
+Obj v_2318267_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2318193_25, closureRef(R[0], 3), v_cont};
-coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2318267_25, closureRef(R[0], 3), v_cont};
+coraCall(co, globalRef(co, getBinding(co, packageID, 41)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2318192_25= co->res;
+Obj v_2318266_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
 saveCont(co, clofun112, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v_2318191_25= co->res;
+Obj v_2318265_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
 saveCont(co, clofun112, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v_2318190_25= co->res;
+Obj v_2318264_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
 saveCont(co, clofun112, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -2059,38 +2144,38 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316743_25 = R[1];
-Obj v_2316744_25 = R[2];
-Obj v_2318173_25 = PRIM_EQ(Nil, v_2316744_25);
-if (True == v_2318173_25) {
+Obj v_2316817_25 = R[1];
+Obj v_2316818_25 = R[2];
+Obj v_2318247_25 = PRIM_EQ(Nil, v_2316818_25);
+if (True == v_2318247_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318174_25 = PRIM_ISCONS(v_2316744_25);
-if (True == v_2318174_25) {
-Obj v_2318175_25 = PRIM_CAR(v_2316744_25);
-Obj v_x = v_2318175_25;
-Obj v_2318176_25 = PRIM_CDR(v_2316744_25);
-Obj v_y = v_2318176_25;
-R[1] = v_2316743_25;
+Obj v_2318248_25 = PRIM_ISCONS(v_2316818_25);
+if (True == v_2318248_25) {
+Obj v_2318249_25 = PRIM_CAR(v_2316818_25);
+Obj v_x = v_2318249_25;
+Obj v_2318250_25 = PRIM_CDR(v_2316818_25);
+Obj v_y = v_2318250_25;
+R[1] = v_2316817_25;
 R[2] = v_y;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, v_2316743_25, v_x);
+coraCall1(co, v_2316817_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318177_25= co->res;
-Obj v_2316743_25 = R[1];
+Obj v_2318251_25= co->res;
+Obj v_2316817_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v_2316743_25, v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2316817_25, v_y);
 return;
 }
 }
@@ -2104,43 +2189,43 @@ Obj v_globals = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
 saveCont(co, clofun110, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2318171_25= co->res;
+Obj v_2318245_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v_2318171_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2318245_25);
 return;
 }
 case 2:
 {
-Obj v_2318170_25= co->res;
+Obj v_2318244_25= co->res;
 saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2318170_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2318244_25);
 return;
 }
 case 3:
 {
-Obj v_2318169_25= co->res;
+Obj v_2318243_25= co->res;
 saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2318169_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2318243_25);
 return;
 }
 case 4:
 {
-Obj v_2318168_25= co->res;
+Obj v_2318242_25= co->res;
 saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2318168_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2318242_25);
 return;
 }
 case 5:
 {
-Obj v_2318167_25= co->res;
+Obj v_2318241_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun110, 4, R);
-coraCall1(co, v_2318167_25, v_exp);
+coraCall1(co, v_2318241_25, v_exp);
 return;
 }
 }
@@ -2153,26 +2238,26 @@ case 0:
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun109, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2318165_25= co->res;
+Obj v_2318239_25= co->res;
 Obj v_obj = R[1];
-Obj v_fns = v_2318165_25;
+Obj v_fns = v_2318239_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v_obj, v_fns);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj v_2318164_25= co->res;
+Obj v_2318238_25= co->res;
 Obj v_exp = R[1];
-Obj v_obj = v_2318164_25;
+Obj v_obj = v_2318238_25;
 R[1] = v_obj;
 saveCont(co, clofun109, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v_exp);
 return;
 }
 }
@@ -2182,27 +2267,27 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316739_25 = R[1];
-Obj v_2316740_25 = R[2];
-Obj v_2318157_25 = PRIM_EQ(Nil, v_2316740_25);
-if (True == v_2318157_25) {
-coraReturn(co, v_2316739_25);
+Obj v_2316813_25 = R[1];
+Obj v_2316814_25 = R[2];
+Obj v_2318231_25 = PRIM_EQ(Nil, v_2316814_25);
+if (True == v_2318231_25) {
+coraReturn(co, v_2316813_25);
 return;
 } else {
-Obj v_2318158_25 = PRIM_ISCONS(v_2316740_25);
-if (True == v_2318158_25) {
-Obj v_2318159_25 = PRIM_CAR(v_2316740_25);
-Obj v_hd = v_2318159_25;
-Obj v_2318160_25 = PRIM_CDR(v_2316740_25);
-Obj v_more = v_2318160_25;
-Obj v_2318161_25 = makeCons(co->gc, v_2316739_25, Nil);
-Obj v_2318162_25 = makeCons(co->gc, v_hd, v_2318161_25);
+Obj v_2318232_25 = PRIM_ISCONS(v_2316814_25);
+if (True == v_2318232_25) {
+Obj v_2318233_25 = PRIM_CAR(v_2316814_25);
+Obj v_hd = v_2318233_25;
+Obj v_2318234_25 = PRIM_CDR(v_2316814_25);
+Obj v_more = v_2318234_25;
+Obj v_2318235_25 = makeCons(co->gc, v_2316813_25, Nil);
+Obj v_2318236_25 = makeCons(co->gc, v_hd, v_2318235_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v_2318162_25, v_more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2318236_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2217,67 +2302,67 @@ case 0:
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun107, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v_2318155_25= co->res;
+Obj v_2318229_25= co->res;
 Obj v_v = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v_2318154_25= co->res;
+Obj v_2318228_25= co->res;
 Obj v_v = R[1];
-Obj v_e2 = v_2318154_25;
+Obj v_e2 = v_2318228_25;
 R[1] = v_v;
 saveCont(co, clofun107, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_v, v_e2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, v_e2);
 return;
 }
 case 3:
 {
-Obj v_2318153_25= co->res;
+Obj v_2318227_25= co->res;
 Obj v_v = R[1];
-Obj v_e1 = v_2318153_25;
+Obj v_e1 = v_2318227_25;
 R[1] = v_v;
 saveCont(co, clofun107, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v_e1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), Nil, v_e1);
 return;
 }
 case 4:
 {
-Obj v_2318152_25= co->res;
+Obj v_2318226_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 saveCont(co, clofun107, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, v_exp);
 return;
 }
 case 5:
 {
-Obj v_2318151_25= co->res;
+Obj v_2318225_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_exp;
 R[2] = v_v;
 saveCont(co, clofun107, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v_2318150_25= co->res;
+Obj v_2318224_25= co->res;
 Obj v_exp = R[1];
-Obj v_v = v_2318150_25;
+Obj v_v = v_2318224_25;
 R[1] = v_exp;
 R[2] = v_v;
 saveCont(co, clofun107, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2289,7 +2374,7 @@ case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), Nil, v_exp);
 return;
 }
 }
@@ -2301,7 +2386,7 @@ case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_exp, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_exp, globalRef(co, getBinding(co, packageID, 71)));
 return;
 }
 }
@@ -2313,7 +2398,7 @@ case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), Nil, v_exp);
 return;
 }
 }
@@ -2326,7 +2411,7 @@ case 0:
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, v_globals, v_exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v_globals, v_exp);
 return;
 }
 }
@@ -2341,34 +2426,34 @@ Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
 saveCont(co, clofun102, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v_2318144_25= co->res;
+Obj v_2318218_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318143_25= co->res;
+Obj v_2318217_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
 saveCont(co, clofun102, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v_2318142_25= co->res;
+Obj v_2318216_25= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
 saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_w, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_w, v_label);
 return;
 }
 }
@@ -2383,16 +2468,16 @@ Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
 saveCont(co, clofun101, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v_2318140_25= co->res;
+Obj v_2318214_25= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_w, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, v_label);
 return;
 }
 }
@@ -2402,136 +2487,136 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316733_25 = R[1];
-Obj v_2316734_25 = R[2];
-Obj v_2316735_25 = R[3];
-Obj v_2316736_25 = R[4];
-Obj v_2316737_25 = R[5];
-Obj v_2316738_25 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj v_2318118_25 = PRIM_ISCONS(v_2316737_25);
-if (True == v_2318118_25) {
-Obj v_2318119_25 = PRIM_CAR(v_2316737_25);
-Obj v_2318120_25 = PRIM_EQ(getBinding(co, packageID, 62).name, v_2318119_25);
-if (True == v_2318120_25) {
-Obj v_2318121_25 = PRIM_CDR(v_2316737_25);
-Obj v_2318122_25 = PRIM_ISCONS(v_2318121_25);
-if (True == v_2318122_25) {
-Obj v_2318123_25 = PRIM_CDR(v_2316737_25);
-Obj v_2318124_25 = PRIM_CAR(v_2318123_25);
-Obj v_var = v_2318124_25;
-Obj v_2318125_25 = PRIM_CDR(v_2316737_25);
-Obj v_2318126_25 = PRIM_CDR(v_2318125_25);
-Obj v_2318127_25 = PRIM_ISCONS(v_2318126_25);
-if (True == v_2318127_25) {
-Obj v_2318128_25 = PRIM_CDR(v_2316737_25);
-Obj v_2318129_25 = PRIM_CDR(v_2318128_25);
-Obj v_2318130_25 = PRIM_CAR(v_2318129_25);
-Obj v_body = v_2318130_25;
-Obj v_2318131_25 = PRIM_CDR(v_2316737_25);
-Obj v_2318132_25 = PRIM_CDR(v_2318131_25);
-Obj v_2318133_25 = PRIM_CDR(v_2318132_25);
-Obj v_fvs = v_2318133_25;
+Obj v_2316807_25 = R[1];
+Obj v_2316808_25 = R[2];
+Obj v_2316809_25 = R[3];
+Obj v_2316810_25 = R[4];
+Obj v_2316811_25 = R[5];
+Obj v_2316812_25 = makeNative(co->gc, 1, clofun99, 0, 0);
+Obj v_2318192_25 = PRIM_ISCONS(v_2316811_25);
+if (True == v_2318192_25) {
+Obj v_2318193_25 = PRIM_CAR(v_2316811_25);
+Obj v_2318194_25 = PRIM_EQ(getBinding(co, packageID, 63).name, v_2318193_25);
+if (True == v_2318194_25) {
+Obj v_2318195_25 = PRIM_CDR(v_2316811_25);
+Obj v_2318196_25 = PRIM_ISCONS(v_2318195_25);
+if (True == v_2318196_25) {
+Obj v_2318197_25 = PRIM_CDR(v_2316811_25);
+Obj v_2318198_25 = PRIM_CAR(v_2318197_25);
+Obj v_var = v_2318198_25;
+Obj v_2318199_25 = PRIM_CDR(v_2316811_25);
+Obj v_2318200_25 = PRIM_CDR(v_2318199_25);
+Obj v_2318201_25 = PRIM_ISCONS(v_2318200_25);
+if (True == v_2318201_25) {
+Obj v_2318202_25 = PRIM_CDR(v_2316811_25);
+Obj v_2318203_25 = PRIM_CDR(v_2318202_25);
+Obj v_2318204_25 = PRIM_CAR(v_2318203_25);
+Obj v_body = v_2318204_25;
+Obj v_2318205_25 = PRIM_CDR(v_2316811_25);
+Obj v_2318206_25 = PRIM_CDR(v_2318205_25);
+Obj v_2318207_25 = PRIM_CDR(v_2318206_25);
+Obj v_fvs = v_2318207_25;
 R[1] = v_var;
 R[2] = v_fvs;
-R[3] = v_2316733_25;
-R[4] = v_2316734_25;
-R[5] = v_2316735_25;
-R[6] = v_2316736_25;
+R[3] = v_2316807_25;
+R[4] = v_2316808_25;
+R[5] = v_2316809_25;
+R[6] = v_2316810_25;
 R[7] = v_body;
 saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_2316736_25, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316810_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318138_25= co->res;
-Obj v_2316733_25 = R[1];
-Obj v_2316734_25 = R[2];
-Obj v_2316735_25 = R[3];
-Obj v_2316736_25 = R[4];
+Obj v_2318212_25= co->res;
+Obj v_2316807_25 = R[1];
+Obj v_2316808_25 = R[2];
+Obj v_2316809_25 = R[3];
+Obj v_2316810_25 = R[4];
 Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v_2316733_25, v_2316734_25, v_2316735_25, v_2316736_25, v_body};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {v_2316807_25, v_2316808_25, v_2316809_25, v_2316810_25, v_body};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v_2318137_25= co->res;
+Obj v_2318211_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2316733_25 = R[2];
-Obj v_2316734_25 = R[3];
-Obj v_2316735_25 = R[4];
-Obj v_2316736_25 = R[5];
+Obj v_2316807_25 = R[2];
+Obj v_2316808_25 = R[3];
+Obj v_2316809_25 = R[4];
+Obj v_2316810_25 = R[5];
 Obj v_body = R[6];
-R[1] = v_2316733_25;
-R[2] = v_2316734_25;
-R[3] = v_2316735_25;
-R[4] = v_2316736_25;
+R[1] = v_2316807_25;
+R[2] = v_2316808_25;
+R[3] = v_2316809_25;
+R[4] = v_2316810_25;
 R[5] = v_body;
 saveCont(co, clofun100, 1, R);
-Obj __args[5] = {v_2316733_25, v_2316734_25, v_2316735_25, v_2316736_25, v_fvs};
-coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
+Obj __args[5] = {v_2316807_25, v_2316808_25, v_2316809_25, v_2316810_25, v_fvs};
+coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318136_25= co->res;
+Obj v_2318210_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2316733_25 = R[2];
-Obj v_2316734_25 = R[3];
-Obj v_2316735_25 = R[4];
-Obj v_2316736_25 = R[5];
+Obj v_2316807_25 = R[2];
+Obj v_2316808_25 = R[3];
+Obj v_2316809_25 = R[4];
+Obj v_2316810_25 = R[5];
 Obj v_body = R[6];
 R[1] = v_fvs;
-R[2] = v_2316733_25;
-R[3] = v_2316734_25;
-R[4] = v_2316735_25;
-R[5] = v_2316736_25;
+R[2] = v_2316807_25;
+R[3] = v_2316808_25;
+R[4] = v_2316809_25;
+R[5] = v_2316810_25;
 R[6] = v_body;
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_2316736_25, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316810_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v_2318134_25= co->res;
+Obj v_2318208_25= co->res;
 Obj v_var = R[1];
 Obj v_fvs = R[2];
-Obj v_2316733_25 = R[3];
-Obj v_2316734_25 = R[4];
-Obj v_2316735_25 = R[5];
-Obj v_2316736_25 = R[6];
+Obj v_2316807_25 = R[3];
+Obj v_2316808_25 = R[4];
+Obj v_2316809_25 = R[5];
+Obj v_2316810_25 = R[6];
 Obj v_body = R[7];
-Obj v_2318135_25 = PRIM_CAR(v_var);
+Obj v_2318209_25 = PRIM_CAR(v_var);
 R[1] = v_fvs;
-R[2] = v_2316733_25;
-R[3] = v_2316734_25;
-R[4] = v_2316735_25;
-R[5] = v_2316736_25;
+R[2] = v_2316807_25;
+R[3] = v_2316808_25;
+R[4] = v_2316809_25;
+R[5] = v_2316810_25;
 R[6] = v_body;
 saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_2316736_25, v_2318135_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2316810_25, v_2318209_25);
 return;
 }
 }
@@ -2542,7 +2627,7 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2557,20 +2642,20 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v_2318104_25 = primGenSym(co);
-Obj v_generate_2dinst_2dlist_2dh = v_2318104_25;
-Obj v_2318115_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun97, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+Obj v_2318178_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2318178_25;
+Obj v_2318189_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun97, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
 R[1] = v_l;
 saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_generate_2dinst_2dlist_2dh);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_generate_2dinst_2dlist_2dh);
 return;
 }
 case 1:
 {
-Obj v_2318116_25= co->res;
+Obj v_2318190_25= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318116_25, v_l);
+coraCall1(co, v_2318190_25, v_l);
 return;
 }
 }
@@ -2581,79 +2666,79 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318105_25 = PRIM_EQ(Nil, v_x);
-if (True == v_2318105_25) {
+Obj v_2318179_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2318179_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318106_25 = PRIM_ISCONS(v_x);
-if (True == v_2318106_25) {
-Obj v_2318107_25 = PRIM_CAR(v_x);
-Obj v_a = v_2318107_25;
-Obj v_2318108_25 = PRIM_CDR(v_x);
-Obj v_b = v_2318108_25;
+Obj v_2318180_25 = PRIM_ISCONS(v_x);
+if (True == v_2318180_25) {
+Obj v_2318181_25 = PRIM_CAR(v_x);
+Obj v_a = v_2318181_25;
+Obj v_2318182_25 = PRIM_CDR(v_x);
+Obj v_b = v_2318182_25;
 R[1] = v_b;
 saveCont(co, clofun97, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318113_25= co->res;
+Obj v_2318187_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318113_25, v_b);
+coraCall1(co, v_2318187_25, v_b);
 return;
 }
 case 2:
 {
-Obj v_2318112_25= co->res;
+Obj v_2318186_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun97, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318114_25= co->res;
+Obj v_2318188_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318114_25, v_b);
+coraCall1(co, v_2318188_25, v_b);
 return;
 }
 case 4:
 {
-Obj v_2318110_25= co->res;
+Obj v_2318184_25= co->res;
 Obj v_b = R[1];
-Obj v_2318111_25 = primNot(v_2318110_25);
-if (True == v_2318111_25) {
+Obj v_2318185_25 = primNot(v_2318184_25);
+if (True == v_2318185_25) {
 R[1] = v_b;
 saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 R[1] = v_b;
 saveCont(co, clofun97, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v_2318109_25= co->res;
+Obj v_2318183_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun97, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_b);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_b);
 return;
 }
 }
@@ -2668,22 +2753,22 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v_2317817_25 = primGenSym(co);
-Obj v_generate_2dinst_2dh = v_2317817_25;
-Obj v_2318101_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun95, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+Obj v_2317891_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2317891_25;
+Obj v_2318175_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun95, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
 saveCont(co, clofun96, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_generate_2dinst_2dh);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_generate_2dinst_2dh);
 return;
 }
 case 1:
 {
-Obj v_2318102_25= co->res;
+Obj v_2318176_25= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2318102_25, v_x1, v_env1);
+coraCall2(co, v_2318176_25, v_x1, v_env1);
 return;
 }
 }
@@ -2695,74 +2780,74 @@ case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v_2317818_25 = primIsSymbol(v_x2);
-if (True == v_2317818_25) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_x2);
-return;
-} else {
-Obj v_2316719_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v_2318088_25 = PRIM_ISCONS(v_x2);
-if (True == v_2318088_25) {
-Obj v_2318089_25 = PRIM_CAR(v_x2);
-Obj v_2318090_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318089_25);
-if (True == v_2318090_25) {
-Obj v_2318091_25 = PRIM_CDR(v_x2);
-Obj v_2318092_25 = PRIM_ISCONS(v_2318091_25);
-if (True == v_2318092_25) {
-Obj v_2318093_25 = PRIM_CDR(v_x2);
-Obj v_2318094_25 = PRIM_CAR(v_2318093_25);
-Obj v_x = v_2318094_25;
-Obj v_2318095_25 = PRIM_CDR(v_x2);
-Obj v_2318096_25 = PRIM_CDR(v_2318095_25);
-Obj v_2318097_25 = PRIM_EQ(Nil, v_2318096_25);
-if (True == v_2318097_25) {
+Obj v_2317892_25 = primIsSymbol(v_x2);
+if (True == v_2317892_25) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
+return;
+} else {
+Obj v_2316793_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2318162_25 = PRIM_ISCONS(v_x2);
+if (True == v_2318162_25) {
+Obj v_2318163_25 = PRIM_CAR(v_x2);
+Obj v_2318164_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318163_25);
+if (True == v_2318164_25) {
+Obj v_2318165_25 = PRIM_CDR(v_x2);
+Obj v_2318166_25 = PRIM_ISCONS(v_2318165_25);
+if (True == v_2318166_25) {
+Obj v_2318167_25 = PRIM_CDR(v_x2);
+Obj v_2318168_25 = PRIM_CAR(v_2318167_25);
+Obj v_x = v_2318168_25;
+Obj v_2318169_25 = PRIM_CDR(v_x2);
+Obj v_2318170_25 = PRIM_CDR(v_2318169_25);
+Obj v_2318171_25 = PRIM_EQ(Nil, v_2318170_25);
+if (True == v_2318171_25) {
 R[1] = v_x;
 saveCont(co, clofun95, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316719_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316719_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316719_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316719_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318100_25= co->res;
+Obj v_2318174_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v_2318099_25= co->res;
+Obj v_2318173_25= co->res;
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_2318099_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2318173_25);
 return;
 }
 case 3:
 {
-Obj v_2318098_25= co->res;
+Obj v_2318172_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 2));
 return;
 }
 }
@@ -2772,60 +2857,60 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316720_25 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v_2318076_25 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v_2318076_25) {
-Obj v_2318077_25 = PRIM_CAR(closureRef(R[0], 4));
-Obj v_2318078_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318077_25);
-if (True == v_2318078_25) {
-Obj v_2318079_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318080_25 = PRIM_ISCONS(v_2318079_25);
-if (True == v_2318080_25) {
-Obj v_2318081_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318082_25 = PRIM_CAR(v_2318081_25);
-Obj v_idx = v_2318082_25;
-Obj v_2318083_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318084_25 = PRIM_CDR(v_2318083_25);
-Obj v_2318085_25 = PRIM_EQ(Nil, v_2318084_25);
-if (True == v_2318085_25) {
+Obj v_2316794_25 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2318150_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2318150_25) {
+Obj v_2318151_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2318152_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318151_25);
+if (True == v_2318152_25) {
+Obj v_2318153_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318154_25 = PRIM_ISCONS(v_2318153_25);
+if (True == v_2318154_25) {
+Obj v_2318155_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318156_25 = PRIM_CAR(v_2318155_25);
+Obj v_idx = v_2318156_25;
+Obj v_2318157_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318158_25 = PRIM_CDR(v_2318157_25);
+Obj v_2318159_25 = PRIM_EQ(Nil, v_2318158_25);
+if (True == v_2318159_25) {
 R[1] = v_idx;
 saveCont(co, clofun94, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316720_25);
+coraCall0(co, v_2316794_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316720_25);
+coraCall0(co, v_2316794_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316720_25);
+coraCall0(co, v_2316794_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316720_25);
+coraCall0(co, v_2316794_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318087_25= co->res;
+Obj v_2318161_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318086_25= co->res;
+Obj v_2318160_25= co->res;
 Obj v_idx = R[1];
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_idx);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_idx);
 return;
 }
 }
@@ -2835,151 +2920,151 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316721_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2318052_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2318052_25) {
-Obj v_2318053_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2318054_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318053_25);
-if (True == v_2318054_25) {
-Obj v_2318055_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318056_25 = PRIM_ISCONS(v_2318055_25);
-if (True == v_2318056_25) {
-Obj v_2318057_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318058_25 = PRIM_CAR(v_2318057_25);
-Obj v_x = v_2318058_25;
-Obj v_2318059_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318060_25 = PRIM_CDR(v_2318059_25);
-Obj v_2318061_25 = PRIM_EQ(Nil, v_2318060_25);
-if (True == v_2318061_25) {
-Obj v_2318062_25 = primIsSymbol(v_x);
-if (True == v_2318062_25) {
+Obj v_2316795_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2318126_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2318126_25) {
+Obj v_2318127_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2318128_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318127_25);
+if (True == v_2318128_25) {
+Obj v_2318129_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318130_25 = PRIM_ISCONS(v_2318129_25);
+if (True == v_2318130_25) {
+Obj v_2318131_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318132_25 = PRIM_CAR(v_2318131_25);
+Obj v_x = v_2318132_25;
+Obj v_2318133_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318134_25 = PRIM_CDR(v_2318133_25);
+Obj v_2318135_25 = PRIM_EQ(Nil, v_2318134_25);
+if (True == v_2318135_25) {
+Obj v_2318136_25 = primIsSymbol(v_x);
+if (True == v_2318136_25) {
 R[1] = v_x;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = v_x;
 saveCont(co, clofun93, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316721_25);
+coraCall0(co, v_2316795_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316721_25);
+coraCall0(co, v_2316795_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316721_25);
+coraCall0(co, v_2316795_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316721_25);
+coraCall0(co, v_2316795_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318065_25= co->res;
+Obj v_2318139_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v_2318064_25= co->res;
+Obj v_2318138_25= co->res;
 saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_2318064_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318138_25);
 return;
 }
 case 3:
 {
-Obj v_2318063_25= co->res;
+Obj v_2318137_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun93, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_x, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2318068_25= co->res;
+Obj v_2318142_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v_2318067_25= co->res;
+Obj v_2318141_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun93, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_x);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_x);
 return;
 }
 case 6:
 {
-Obj v_2318072_25= co->res;
+Obj v_2318146_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v_2318071_25= co->res;
+Obj v_2318145_25= co->res;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318071_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318145_25);
 return;
 }
 case 8:
 {
-Obj v_2318070_25= co->res;
+Obj v_2318144_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun93, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_x);
 return;
 }
 case 9:
 {
-Obj v_2318066_25= co->res;
+Obj v_2318140_25= co->res;
 Obj v_x = R[1];
-if (True == v_2318066_25) {
+if (True == v_2318140_25) {
 R[1] = v_x;
 saveCont(co, clofun93, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v_2318069_25 = primIsString(v_x);
-if (True == v_2318069_25) {
+Obj v_2318143_25 = primIsString(v_x);
+if (True == v_2318143_25) {
 R[1] = v_x;
 saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v_2318073_25 = PRIM_EQ(v_x, Nil);
-if (True == v_2318073_25) {
+Obj v_2318147_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2318147_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v_2318074_25 = PRIM_EQ(v_x, True);
-if (True == v_2318074_25) {
+Obj v_2318148_25 = PRIM_EQ(v_x, True);
+if (True == v_2318148_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v_2318075_25 = PRIM_EQ(v_x, False);
-if (True == v_2318075_25) {
+Obj v_2318149_25 = PRIM_EQ(v_x, False);
+if (True == v_2318149_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -2994,126 +3079,126 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316722_25 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2318017_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318017_25) {
-Obj v_2318018_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318019_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2318018_25);
-if (True == v_2318019_25) {
-Obj v_2318020_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318021_25 = PRIM_ISCONS(v_2318020_25);
-if (True == v_2318021_25) {
-Obj v_2318022_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318023_25 = PRIM_CAR(v_2318022_25);
-Obj v_a = v_2318023_25;
-Obj v_2318024_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318025_25 = PRIM_CDR(v_2318024_25);
-Obj v_2318026_25 = PRIM_ISCONS(v_2318025_25);
-if (True == v_2318026_25) {
-Obj v_2318027_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318028_25 = PRIM_CDR(v_2318027_25);
-Obj v_2318029_25 = PRIM_CAR(v_2318028_25);
-Obj v_b = v_2318029_25;
-Obj v_2318030_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318031_25 = PRIM_CDR(v_2318030_25);
-Obj v_2318032_25 = PRIM_CDR(v_2318031_25);
-Obj v_2318033_25 = PRIM_ISCONS(v_2318032_25);
-if (True == v_2318033_25) {
-Obj v_2318034_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318035_25 = PRIM_CDR(v_2318034_25);
-Obj v_2318036_25 = PRIM_CDR(v_2318035_25);
-Obj v_2318037_25 = PRIM_CAR(v_2318036_25);
-Obj v_c = v_2318037_25;
-Obj v_2318038_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318039_25 = PRIM_CDR(v_2318038_25);
-Obj v_2318040_25 = PRIM_CDR(v_2318039_25);
-Obj v_2318041_25 = PRIM_CDR(v_2318040_25);
-Obj v_2318042_25 = PRIM_EQ(Nil, v_2318041_25);
-if (True == v_2318042_25) {
+Obj v_2316796_25 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2318091_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318091_25) {
+Obj v_2318092_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318093_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2318092_25);
+if (True == v_2318093_25) {
+Obj v_2318094_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318095_25 = PRIM_ISCONS(v_2318094_25);
+if (True == v_2318095_25) {
+Obj v_2318096_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318097_25 = PRIM_CAR(v_2318096_25);
+Obj v_a = v_2318097_25;
+Obj v_2318098_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318099_25 = PRIM_CDR(v_2318098_25);
+Obj v_2318100_25 = PRIM_ISCONS(v_2318099_25);
+if (True == v_2318100_25) {
+Obj v_2318101_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318102_25 = PRIM_CDR(v_2318101_25);
+Obj v_2318103_25 = PRIM_CAR(v_2318102_25);
+Obj v_b = v_2318103_25;
+Obj v_2318104_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318105_25 = PRIM_CDR(v_2318104_25);
+Obj v_2318106_25 = PRIM_CDR(v_2318105_25);
+Obj v_2318107_25 = PRIM_ISCONS(v_2318106_25);
+if (True == v_2318107_25) {
+Obj v_2318108_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318109_25 = PRIM_CDR(v_2318108_25);
+Obj v_2318110_25 = PRIM_CDR(v_2318109_25);
+Obj v_2318111_25 = PRIM_CAR(v_2318110_25);
+Obj v_c = v_2318111_25;
+Obj v_2318112_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318113_25 = PRIM_CDR(v_2318112_25);
+Obj v_2318114_25 = PRIM_CDR(v_2318113_25);
+Obj v_2318115_25 = PRIM_CDR(v_2318114_25);
+Obj v_2318116_25 = PRIM_EQ(Nil, v_2318115_25);
+if (True == v_2318116_25) {
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun92, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_a, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316722_25);
+coraCall0(co, v_2316796_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316722_25);
+coraCall0(co, v_2316796_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316722_25);
+coraCall0(co, v_2316796_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316722_25);
+coraCall0(co, v_2316796_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316722_25);
+coraCall0(co, v_2316796_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316722_25);
+coraCall0(co, v_2316796_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318050_25= co->res;
+Obj v_2318124_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_2318051_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
+Obj v_2318125_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v_2318050_25, v_c, v_2318051_25);
+coraCall2(co, v_2318124_25, v_c, v_2318125_25);
 return;
 }
 case 2:
 {
-Obj v_2318049_25= co->res;
+Obj v_2318123_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun92, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318048_25= co->res;
+Obj v_2318122_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2318047_25= co->res;
+Obj v_2318121_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, v_2318047_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2318121_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v_2318046_25= co->res;
+Obj v_2318120_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3121,12 +3206,12 @@ R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun92, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2318045_25= co->res;
+Obj v_2318119_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3134,12 +3219,12 @@ R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun92, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v_2318044_25= co->res;
+Obj v_2318118_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3147,12 +3232,12 @@ R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun92, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_a);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_a);
 return;
 }
 case 8:
 {
-Obj v_2318043_25= co->res;
+Obj v_2318117_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3160,7 +3245,7 @@ R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun92, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
@@ -3170,155 +3255,155 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316723_25 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317987_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317987_25) {
-Obj v_2317988_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317989_25 = PRIM_ISCONS(v_2317988_25);
-if (True == v_2317989_25) {
-Obj v_2317990_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317991_25 = PRIM_CAR(v_2317990_25);
-Obj v_2317992_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317991_25);
-if (True == v_2317992_25) {
-Obj v_2317993_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317994_25 = PRIM_CDR(v_2317993_25);
-Obj v_2317995_25 = PRIM_ISCONS(v_2317994_25);
-if (True == v_2317995_25) {
-Obj v_2317996_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317997_25 = PRIM_CDR(v_2317996_25);
-Obj v_2317998_25 = PRIM_CAR(v_2317997_25);
-Obj v_f = v_2317998_25;
-Obj v_2317999_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318000_25 = PRIM_CDR(v_2317999_25);
-Obj v_2318001_25 = PRIM_CDR(v_2318000_25);
-Obj v_2318002_25 = PRIM_EQ(Nil, v_2318001_25);
-if (True == v_2318002_25) {
-Obj v_2318003_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_args = v_2318003_25;
+Obj v_2316797_25 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318061_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318061_25) {
+Obj v_2318062_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318063_25 = PRIM_ISCONS(v_2318062_25);
+if (True == v_2318063_25) {
+Obj v_2318064_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318065_25 = PRIM_CAR(v_2318064_25);
+Obj v_2318066_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318065_25);
+if (True == v_2318066_25) {
+Obj v_2318067_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318068_25 = PRIM_CDR(v_2318067_25);
+Obj v_2318069_25 = PRIM_ISCONS(v_2318068_25);
+if (True == v_2318069_25) {
+Obj v_2318070_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318071_25 = PRIM_CDR(v_2318070_25);
+Obj v_2318072_25 = PRIM_CAR(v_2318071_25);
+Obj v_f = v_2318072_25;
+Obj v_2318073_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318074_25 = PRIM_CDR(v_2318073_25);
+Obj v_2318075_25 = PRIM_CDR(v_2318074_25);
+Obj v_2318076_25 = PRIM_EQ(Nil, v_2318075_25);
+if (True == v_2318076_25) {
+Obj v_2318077_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2318077_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun91, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_f);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316723_25);
+coraCall0(co, v_2316797_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316723_25);
+coraCall0(co, v_2316797_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316723_25);
+coraCall0(co, v_2316797_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316723_25);
+coraCall0(co, v_2316797_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316723_25);
+coraCall0(co, v_2316797_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318008_25= co->res;
+Obj v_2318082_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318007_25= co->res;
+Obj v_2318081_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun91, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318011_25= co->res;
+Obj v_2318085_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v_2318010_25= co->res;
+Obj v_2318084_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun91, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v_2318014_25= co->res;
+Obj v_2318088_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v_2318013_25= co->res;
+Obj v_2318087_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun91, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2318016_25= co->res;
+Obj v_2318090_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v_2318015_25= co->res;
+Obj v_2318089_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun91, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2318005_25= co->res;
+Obj v_2318079_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318006_25 = PRIM_EQ(v_f, getBinding(co, packageID, 121).name);
-if (True == v_2318006_25) {
+Obj v_2318080_25 = PRIM_EQ(v_f, getBinding(co, packageID, 122).name);
+if (True == v_2318080_25) {
 R[1] = v_args;
 saveCont(co, clofun91, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v_2318009_25 = PRIM_EQ(v_f, getBinding(co, packageID, 109).name);
-if (True == v_2318009_25) {
+Obj v_2318083_25 = PRIM_EQ(v_f, getBinding(co, packageID, 110).name);
+if (True == v_2318083_25) {
 R[1] = v_args;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v_2318012_25 = PRIM_EQ(v_f, getBinding(co, packageID, 118).name);
-if (True == v_2318012_25) {
+Obj v_2318086_25 = PRIM_EQ(v_f, getBinding(co, packageID, 119).name);
+if (True == v_2318086_25) {
 R[1] = v_args;
 saveCont(co, clofun91, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = v_args;
 saveCont(co, clofun91, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
 }
@@ -3326,13 +3411,13 @@ return;
 }
 case 10:
 {
-Obj v_2318004_25= co->res;
+Obj v_2318078_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318004_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318078_25);
 return;
 }
 }
@@ -3342,159 +3427,159 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316724_25 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317952_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317952_25) {
-Obj v_2317953_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317954_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317953_25);
-if (True == v_2317954_25) {
-Obj v_2317955_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317956_25 = PRIM_ISCONS(v_2317955_25);
-if (True == v_2317956_25) {
-Obj v_2317957_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317958_25 = PRIM_CAR(v_2317957_25);
-Obj v_a = v_2317958_25;
-Obj v_2317959_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317960_25 = PRIM_CDR(v_2317959_25);
-Obj v_2317961_25 = PRIM_ISCONS(v_2317960_25);
-if (True == v_2317961_25) {
-Obj v_2317962_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317963_25 = PRIM_CDR(v_2317962_25);
-Obj v_2317964_25 = PRIM_CAR(v_2317963_25);
-Obj v_b = v_2317964_25;
-Obj v_2317965_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317966_25 = PRIM_CDR(v_2317965_25);
-Obj v_2317967_25 = PRIM_CDR(v_2317966_25);
-Obj v_2317968_25 = PRIM_ISCONS(v_2317967_25);
-if (True == v_2317968_25) {
-Obj v_2317969_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317970_25 = PRIM_CDR(v_2317969_25);
-Obj v_2317971_25 = PRIM_CDR(v_2317970_25);
-Obj v_2317972_25 = PRIM_CAR(v_2317971_25);
-Obj v_c = v_2317972_25;
-Obj v_2317973_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317974_25 = PRIM_CDR(v_2317973_25);
-Obj v_2317975_25 = PRIM_CDR(v_2317974_25);
-Obj v_2317976_25 = PRIM_CDR(v_2317975_25);
-Obj v_2317977_25 = PRIM_EQ(Nil, v_2317976_25);
-if (True == v_2317977_25) {
+Obj v_2316798_25 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318026_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318026_25) {
+Obj v_2318027_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318028_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2318027_25);
+if (True == v_2318028_25) {
+Obj v_2318029_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318030_25 = PRIM_ISCONS(v_2318029_25);
+if (True == v_2318030_25) {
+Obj v_2318031_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318032_25 = PRIM_CAR(v_2318031_25);
+Obj v_a = v_2318032_25;
+Obj v_2318033_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318034_25 = PRIM_CDR(v_2318033_25);
+Obj v_2318035_25 = PRIM_ISCONS(v_2318034_25);
+if (True == v_2318035_25) {
+Obj v_2318036_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318037_25 = PRIM_CDR(v_2318036_25);
+Obj v_2318038_25 = PRIM_CAR(v_2318037_25);
+Obj v_b = v_2318038_25;
+Obj v_2318039_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318040_25 = PRIM_CDR(v_2318039_25);
+Obj v_2318041_25 = PRIM_CDR(v_2318040_25);
+Obj v_2318042_25 = PRIM_ISCONS(v_2318041_25);
+if (True == v_2318042_25) {
+Obj v_2318043_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318044_25 = PRIM_CDR(v_2318043_25);
+Obj v_2318045_25 = PRIM_CDR(v_2318044_25);
+Obj v_2318046_25 = PRIM_CAR(v_2318045_25);
+Obj v_c = v_2318046_25;
+Obj v_2318047_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318048_25 = PRIM_CDR(v_2318047_25);
+Obj v_2318049_25 = PRIM_CDR(v_2318048_25);
+Obj v_2318050_25 = PRIM_CDR(v_2318049_25);
+Obj v_2318051_25 = PRIM_EQ(Nil, v_2318050_25);
+if (True == v_2318051_25) {
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
 saveCont(co, clofun90, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316798_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316798_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316798_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316798_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316798_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316798_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317986_25= co->res;
+Obj v_2318060_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v_2317985_25= co->res;
+Obj v_2318059_25= co->res;
 Obj v_c = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, v_2317985_25, v_c, closureRef(R[0], 4));
+coraCall2(co, v_2318059_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317984_25= co->res;
+Obj v_2318058_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun90, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2317983_25= co->res;
+Obj v_2318057_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun90, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v_2317982_25= co->res;
+Obj v_2318056_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_c;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, v_2317982_25, v_b, closureRef(R[0], 4));
+coraCall2(co, v_2318056_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2317981_25= co->res;
+Obj v_2318055_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
 saveCont(co, clofun90, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v_2317980_25= co->res;
+Obj v_2318054_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
 saveCont(co, clofun90, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v_2317979_25= co->res;
+Obj v_2318053_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_c;
 saveCont(co, clofun90, 7, R);
-coraCall2(co, v_2317979_25, v_a, closureRef(R[0], 4));
+coraCall2(co, v_2318053_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v_2317978_25= co->res;
+Obj v_2318052_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
@@ -3502,7 +3587,7 @@ R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
 saveCont(co, clofun90, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3512,179 +3597,179 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316725_25 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v_2317914_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317914_25) {
-Obj v_2317915_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317916_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317915_25);
-if (True == v_2317916_25) {
-Obj v_2317917_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317918_25 = PRIM_ISCONS(v_2317917_25);
-if (True == v_2317918_25) {
-Obj v_2317919_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317920_25 = PRIM_CAR(v_2317919_25);
-Obj v_label = v_2317920_25;
-Obj v_2317921_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317922_25 = PRIM_CDR(v_2317921_25);
-Obj v_2317923_25 = PRIM_ISCONS(v_2317922_25);
-if (True == v_2317923_25) {
-Obj v_2317924_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317925_25 = PRIM_CDR(v_2317924_25);
-Obj v_2317926_25 = PRIM_CAR(v_2317925_25);
-Obj v_nargs = v_2317926_25;
-Obj v_2317927_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317928_25 = PRIM_CDR(v_2317927_25);
-Obj v_2317929_25 = PRIM_CDR(v_2317928_25);
-Obj v_2317930_25 = PRIM_ISCONS(v_2317929_25);
-if (True == v_2317930_25) {
-Obj v_2317931_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317932_25 = PRIM_CDR(v_2317931_25);
-Obj v_2317933_25 = PRIM_CDR(v_2317932_25);
-Obj v_2317934_25 = PRIM_CAR(v_2317933_25);
-Obj v_nframe = v_2317934_25;
-Obj v_2317935_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317936_25 = PRIM_CDR(v_2317935_25);
-Obj v_2317937_25 = PRIM_CDR(v_2317936_25);
-Obj v_2317938_25 = PRIM_CDR(v_2317937_25);
-Obj v_frees = v_2317938_25;
+Obj v_2316799_25 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2317988_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317988_25) {
+Obj v_2317989_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317990_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317989_25);
+if (True == v_2317990_25) {
+Obj v_2317991_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317992_25 = PRIM_ISCONS(v_2317991_25);
+if (True == v_2317992_25) {
+Obj v_2317993_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317994_25 = PRIM_CAR(v_2317993_25);
+Obj v_label = v_2317994_25;
+Obj v_2317995_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317996_25 = PRIM_CDR(v_2317995_25);
+Obj v_2317997_25 = PRIM_ISCONS(v_2317996_25);
+if (True == v_2317997_25) {
+Obj v_2317998_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317999_25 = PRIM_CDR(v_2317998_25);
+Obj v_2318000_25 = PRIM_CAR(v_2317999_25);
+Obj v_nargs = v_2318000_25;
+Obj v_2318001_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318002_25 = PRIM_CDR(v_2318001_25);
+Obj v_2318003_25 = PRIM_CDR(v_2318002_25);
+Obj v_2318004_25 = PRIM_ISCONS(v_2318003_25);
+if (True == v_2318004_25) {
+Obj v_2318005_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318006_25 = PRIM_CDR(v_2318005_25);
+Obj v_2318007_25 = PRIM_CDR(v_2318006_25);
+Obj v_2318008_25 = PRIM_CAR(v_2318007_25);
+Obj v_nframe = v_2318008_25;
+Obj v_2318009_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318010_25 = PRIM_CDR(v_2318009_25);
+Obj v_2318011_25 = PRIM_CDR(v_2318010_25);
+Obj v_2318012_25 = PRIM_CDR(v_2318011_25);
+Obj v_frees = v_2318012_25;
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_nargs;
 R[4] = v_frees;
 saveCont(co, clofun89, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316725_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316725_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316725_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316725_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316725_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317951_25= co->res;
+Obj v_2318025_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2317950_25= co->res;
+Obj v_2318024_25= co->res;
 Obj v_frees = R[1];
 saveCont(co, clofun89, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2317948_25= co->res;
+Obj v_2318022_25= co->res;
 Obj v_frees = R[1];
-Obj v_2317949_25 = primNot(v_2317948_25);
-if (True == v_2317949_25) {
+Obj v_2318023_25 = primNot(v_2318022_25);
+if (True == v_2318023_25) {
 R[1] = v_frees;
 saveCont(co, clofun89, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 }
 case 4:
 {
-Obj v_2317947_25= co->res;
+Obj v_2318021_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun89, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_frees);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_frees);
 return;
 }
 case 5:
 {
-Obj v_2317946_25= co->res;
+Obj v_2318020_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_2317946_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318020_25);
 return;
 }
 case 6:
 {
-Obj v_2317945_25= co->res;
+Obj v_2318019_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun89, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_frees);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_frees);
 return;
 }
 case 7:
 {
-Obj v_2317944_25= co->res;
+Obj v_2318018_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun89, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v_2317943_25= co->res;
+Obj v_2318017_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_frees;
 saveCont(co, clofun89, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 9:
 {
-Obj v_2317942_25= co->res;
+Obj v_2318016_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_nargs;
 R[2] = v_frees;
 saveCont(co, clofun89, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v_2317941_25= co->res;
+Obj v_2318015_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_nargs;
 R[2] = v_frees;
 saveCont(co, clofun89, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), v_label);
 return;
 }
 case 11:
 {
-Obj v_2317940_25= co->res;
+Obj v_2318014_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
@@ -3692,12 +3777,12 @@ R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
 saveCont(co, clofun89, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v_2317939_25= co->res;
+Obj v_2318013_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_nargs = R[3];
@@ -3706,7 +3791,7 @@ R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
 saveCont(co, clofun89, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nframe);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nframe);
 return;
 }
 }
@@ -3716,96 +3801,96 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316726_25 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2317893_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317893_25) {
-Obj v_2317894_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317895_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317894_25);
-if (True == v_2317895_25) {
-Obj v_2317896_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317897_25 = PRIM_ISCONS(v_2317896_25);
-if (True == v_2317897_25) {
-Obj v_2317898_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317899_25 = PRIM_CAR(v_2317898_25);
-Obj v_a = v_2317899_25;
-Obj v_2317900_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317901_25 = PRIM_CDR(v_2317900_25);
-Obj v_2317902_25 = PRIM_ISCONS(v_2317901_25);
-if (True == v_2317902_25) {
-Obj v_2317903_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317904_25 = PRIM_CDR(v_2317903_25);
-Obj v_2317905_25 = PRIM_CAR(v_2317904_25);
-Obj v_b = v_2317905_25;
-Obj v_2317906_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317907_25 = PRIM_CDR(v_2317906_25);
-Obj v_2317908_25 = PRIM_CDR(v_2317907_25);
-Obj v_2317909_25 = PRIM_EQ(Nil, v_2317908_25);
-if (True == v_2317909_25) {
+Obj v_2316800_25 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2317967_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317967_25) {
+Obj v_2317968_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317969_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317968_25);
+if (True == v_2317969_25) {
+Obj v_2317970_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317971_25 = PRIM_ISCONS(v_2317970_25);
+if (True == v_2317971_25) {
+Obj v_2317972_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317973_25 = PRIM_CAR(v_2317972_25);
+Obj v_a = v_2317973_25;
+Obj v_2317974_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317975_25 = PRIM_CDR(v_2317974_25);
+Obj v_2317976_25 = PRIM_ISCONS(v_2317975_25);
+if (True == v_2317976_25) {
+Obj v_2317977_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317978_25 = PRIM_CDR(v_2317977_25);
+Obj v_2317979_25 = PRIM_CAR(v_2317978_25);
+Obj v_b = v_2317979_25;
+Obj v_2317980_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317981_25 = PRIM_CDR(v_2317980_25);
+Obj v_2317982_25 = PRIM_CDR(v_2317981_25);
+Obj v_2317983_25 = PRIM_EQ(Nil, v_2317982_25);
+if (True == v_2317983_25) {
 R[1] = v_a;
 R[2] = v_b;
 saveCont(co, clofun88, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316726_25);
+coraCall0(co, v_2316800_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316726_25);
+coraCall0(co, v_2316800_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316726_25);
+coraCall0(co, v_2316800_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316726_25);
+coraCall0(co, v_2316800_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316726_25);
+coraCall0(co, v_2316800_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317913_25= co->res;
+Obj v_2317987_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, v_2317913_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2317987_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v_2317912_25= co->res;
+Obj v_2317986_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun88, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317911_25= co->res;
+Obj v_2317985_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun88, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2317910_25= co->res;
+Obj v_2317984_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 R[1] = v_b;
 saveCont(co, clofun88, 3, R);
-coraCall2(co, v_2317910_25, v_a, closureRef(R[0], 5));
+coraCall2(co, v_2317984_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3815,76 +3900,76 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316727_25 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317879_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317879_25) {
-Obj v_2317880_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317881_25 = PRIM_EQ(getBinding(co, packageID, 72).name, v_2317880_25);
-if (True == v_2317881_25) {
-Obj v_2317882_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317883_25 = PRIM_ISCONS(v_2317882_25);
-if (True == v_2317883_25) {
-Obj v_2317884_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317885_25 = PRIM_CAR(v_2317884_25);
-Obj v_x = v_2317885_25;
-Obj v_2317886_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317887_25 = PRIM_CDR(v_2317886_25);
-Obj v_2317888_25 = PRIM_EQ(Nil, v_2317887_25);
-if (True == v_2317888_25) {
+Obj v_2316801_25 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317953_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317953_25) {
+Obj v_2317954_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317955_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317954_25);
+if (True == v_2317955_25) {
+Obj v_2317956_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317957_25 = PRIM_ISCONS(v_2317956_25);
+if (True == v_2317957_25) {
+Obj v_2317958_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317959_25 = PRIM_CAR(v_2317958_25);
+Obj v_x = v_2317959_25;
+Obj v_2317960_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317961_25 = PRIM_CDR(v_2317960_25);
+Obj v_2317962_25 = PRIM_EQ(Nil, v_2317961_25);
+if (True == v_2317962_25) {
 R[1] = v_x;
 saveCont(co, clofun87, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316801_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316801_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316801_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316801_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317892_25= co->res;
+Obj v_2317966_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2317891_25= co->res;
+Obj v_2317965_25= co->res;
 saveCont(co, clofun87, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v_2317890_25= co->res;
+Obj v_2317964_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun87, 2, R);
-coraCall2(co, v_2317890_25, v_x, closureRef(R[0], 4));
+coraCall2(co, v_2317964_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2317889_25= co->res;
+Obj v_2317963_25= co->res;
 Obj v_x = R[1];
 R[1] = v_x;
 saveCont(co, clofun87, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3894,69 +3979,69 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316728_25 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317866_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317866_25) {
-Obj v_2317867_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317868_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317867_25);
-if (True == v_2317868_25) {
-Obj v_2317869_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317870_25 = PRIM_ISCONS(v_2317869_25);
-if (True == v_2317870_25) {
-Obj v_2317871_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317872_25 = PRIM_CAR(v_2317871_25);
-Obj v_exp = v_2317872_25;
-Obj v_2317873_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317874_25 = PRIM_CDR(v_2317873_25);
-Obj v_2317875_25 = PRIM_EQ(Nil, v_2317874_25);
-if (True == v_2317875_25) {
+Obj v_2316802_25 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317940_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2317940_25) {
+Obj v_2317941_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2317942_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317941_25);
+if (True == v_2317942_25) {
+Obj v_2317943_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317944_25 = PRIM_ISCONS(v_2317943_25);
+if (True == v_2317944_25) {
+Obj v_2317945_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317946_25 = PRIM_CAR(v_2317945_25);
+Obj v_exp = v_2317946_25;
+Obj v_2317947_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2317948_25 = PRIM_CDR(v_2317947_25);
+Obj v_2317949_25 = PRIM_EQ(Nil, v_2317948_25);
+if (True == v_2317949_25) {
 R[1] = v_exp;
 saveCont(co, clofun86, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316802_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316802_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316802_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316802_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317878_25= co->res;
+Obj v_2317952_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2317877_25= co->res;
+Obj v_2317951_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, v_2317877_25, v_exp, closureRef(R[0], 4));
+coraCall2(co, v_2317951_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317876_25= co->res;
+Obj v_2317950_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun86, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3966,131 +4051,131 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316729_25 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317842_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317842_25) {
-Obj v_2317843_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317844_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317843_25);
-if (True == v_2317844_25) {
-Obj v_2317845_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317846_25 = PRIM_ISCONS(v_2317845_25);
-if (True == v_2317846_25) {
-Obj v_2317847_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317848_25 = PRIM_CAR(v_2317847_25);
-Obj v_exp = v_2317848_25;
-Obj v_2317849_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317850_25 = PRIM_CDR(v_2317849_25);
-Obj v_2317851_25 = PRIM_ISCONS(v_2317850_25);
-if (True == v_2317851_25) {
-Obj v_2317852_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317853_25 = PRIM_CDR(v_2317852_25);
-Obj v_2317854_25 = PRIM_CAR(v_2317853_25);
-Obj v_label = v_2317854_25;
-Obj v_2317855_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317856_25 = PRIM_CDR(v_2317855_25);
-Obj v_2317857_25 = PRIM_CDR(v_2317856_25);
-Obj v_fvs = v_2317857_25;
+Obj v_2316803_25 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2317916_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317916_25) {
+Obj v_2317917_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317918_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317917_25);
+if (True == v_2317918_25) {
+Obj v_2317919_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317920_25 = PRIM_ISCONS(v_2317919_25);
+if (True == v_2317920_25) {
+Obj v_2317921_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317922_25 = PRIM_CAR(v_2317921_25);
+Obj v_exp = v_2317922_25;
+Obj v_2317923_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317924_25 = PRIM_CDR(v_2317923_25);
+Obj v_2317925_25 = PRIM_ISCONS(v_2317924_25);
+if (True == v_2317925_25) {
+Obj v_2317926_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317927_25 = PRIM_CDR(v_2317926_25);
+Obj v_2317928_25 = PRIM_CAR(v_2317927_25);
+Obj v_label = v_2317928_25;
+Obj v_2317929_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317930_25 = PRIM_CDR(v_2317929_25);
+Obj v_2317931_25 = PRIM_CDR(v_2317930_25);
+Obj v_fvs = v_2317931_25;
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun85, 8, R);
 Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v_fvs};
-coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316803_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316803_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316803_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316803_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317865_25= co->res;
+Obj v_2317939_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2317864_25= co->res;
+Obj v_2317938_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, v_2317864_25, v_exp, closureRef(R[0], 4));
+coraCall2(co, v_2317938_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317863_25= co->res;
+Obj v_2317937_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun85, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2317862_25= co->res;
+Obj v_2317936_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun85, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v_2317861_25= co->res;
+Obj v_2317935_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
 saveCont(co, clofun85, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_label);
 return;
 }
 case 6:
 {
-Obj v_2317860_25= co->res;
+Obj v_2317934_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun85, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v_2317859_25= co->res;
+Obj v_2317933_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun85, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v_2317858_25= co->res;
+Obj v_2317932_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun85, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
@@ -4100,93 +4185,93 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317819_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317819_25) {
-Obj v_2317820_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317820_25;
-Obj v_2317821_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317821_25;
+Obj v_2317893_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317893_25) {
+Obj v_2317894_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317894_25;
+Obj v_2317895_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317895_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun84, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317833_25= co->res;
+Obj v_2317907_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v_2317832_25= co->res;
+Obj v_2317906_25= co->res;
 Obj v_nargs = R[1];
 saveCont(co, clofun84, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 3:
 {
-Obj v_2317831_25= co->res;
+Obj v_2317905_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v_2317830_25= co->res;
+Obj v_2317904_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_nargs;
 saveCont(co, clofun84, 3, R);
-coraCall2(co, v_2317830_25, v_f, closureRef(R[0], 4));
+coraCall2(co, v_2317904_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v_2317829_25= co->res;
+Obj v_2317903_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
 saveCont(co, clofun84, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v_2317828_25= co->res;
+Obj v_2317902_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
 saveCont(co, clofun84, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v_2317827_25= co->res;
+Obj v_2317901_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
 saveCont(co, clofun84, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v_2317826_25= co->res;
+Obj v_2317900_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4194,12 +4279,12 @@ R[1] = v_f;
 R[2] = v_nargs;
 saveCont(co, clofun84, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2317825_25= co->res;
+Obj v_2317899_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4207,12 +4292,12 @@ R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
 saveCont(co, clofun84, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v_2317824_25= co->res;
+Obj v_2317898_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4220,58 +4305,58 @@ R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
 saveCont(co, clofun84, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 11:
 {
-Obj v_2317841_25= co->res;
+Obj v_2317915_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v_2317840_25= co->res;
+Obj v_2317914_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun84, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v_2317838_25= co->res;
+Obj v_2317912_25= co->res;
 Obj v_nargs = R[1];
 Obj v_args = R[2];
-Obj v_2317839_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
-if (True == v_2317839_25) {
+Obj v_2317913_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2317913_25) {
 R[1] = v_args;
 saveCont(co, clofun84, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 }
 case 14:
 {
-Obj v_2317837_25= co->res;
+Obj v_2317911_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_nargs;
 R[2] = v_args;
 saveCont(co, clofun84, 13, R);
-coraCall2(co, v_2317837_25, v_f, closureRef(R[0], 4));
+coraCall2(co, v_2317911_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v_2317836_25= co->res;
+Obj v_2317910_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4279,12 +4364,12 @@ R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
 saveCont(co, clofun84, 14, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v_2317835_25= co->res;
+Obj v_2317909_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4292,12 +4377,12 @@ R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
 saveCont(co, clofun84, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v_2317834_25= co->res;
+Obj v_2317908_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4305,29 +4390,29 @@ R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
 saveCont(co, clofun84, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v_nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 18:
 {
-Obj v_2317822_25= co->res;
+Obj v_2317896_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_nargs = v_2317822_25;
-Obj v_2317823_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
-if (True == v_2317823_25) {
+Obj v_nargs = v_2317896_25;
+Obj v_2317897_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2317897_25) {
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
 saveCont(co, clofun84, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
 saveCont(co, clofun84, 17, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
 }
@@ -4344,7 +4429,7 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4359,53 +4444,53 @@ Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun82, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v_2317814_25= co->res;
+Obj v_2317888_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317815_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2317815_25);
+Obj v_2317889_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2317889_25);
 return;
 }
 case 2:
 {
-Obj v_2317813_25= co->res;
+Obj v_2317887_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun82, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v_2317812_25= co->res;
+Obj v_2317886_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun82, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj v_2317811_25= co->res;
+Obj v_2317885_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun82, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v_2317810_25= co->res;
+Obj v_2317884_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun82, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 }
@@ -4421,7 +4506,7 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun80, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun80, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4436,57 +4521,57 @@ Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun80, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v_2317807_25= co->res;
+Obj v_2317881_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317808_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2317808_25);
+Obj v_2317882_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2317882_25);
 return;
 }
 case 2:
 {
-Obj v_2317806_25= co->res;
+Obj v_2317880_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2317805_25= co->res;
+Obj v_2317879_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun80, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2317804_25= co->res;
+Obj v_2317878_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun80, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v_2317803_25= co->res;
+Obj v_2317877_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun80, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -4499,7 +4584,7 @@ case 0:
 Obj v_sym = R[1];
 Obj v_globals = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v_sym, v_globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), MAKE_NUMBER(0), v_sym, v_globals);
 return;
 }
 }
@@ -4516,29 +4601,29 @@ R[1] = v_idx;
 R[2] = v_globals;
 R[3] = v_sym;
 saveCont(co, clofun78, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2317796_25= co->res;
+Obj v_2317870_25= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v_2317796_25) {
+if (True == v_2317870_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2317797_25 = PRIM_CAR(v_globals);
-Obj v_2317798_25 = PRIM_EQ(v_sym, v_2317797_25);
-if (True == v_2317798_25) {
+Obj v_2317871_25 = PRIM_CAR(v_globals);
+Obj v_2317872_25 = PRIM_EQ(v_sym, v_2317871_25);
+if (True == v_2317872_25) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v_2317799_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v_2317800_25 = PRIM_CDR(v_globals);
+Obj v_2317873_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2317874_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v_2317799_25, v_sym, v_2317800_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2317873_25, v_sym, v_2317874_25);
 return;
 }
 }
@@ -4555,36 +4640,36 @@ Obj v_globals = R[2];
 R[1] = v_sym;
 R[2] = v_globals;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2317792_25= co->res;
+Obj v_2317866_25= co->res;
 Obj v_sym = R[1];
 Obj v_val = R[2];
 Obj v_globals = R[3];
-if (True == v_2317792_25) {
+if (True == v_2317866_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317793_25 = makeCons(co->gc, v_sym, v_val);
-Obj v_2317794_25 = primSet(co, v_globals, v_2317793_25);
-coraReturn(co, v_2317794_25);
+Obj v_2317867_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2317868_25 = primSet(co, v_globals, v_2317867_25);
+coraReturn(co, v_2317868_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2317791_25= co->res;
+Obj v_2317865_25= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v_val = v_2317791_25;
+Obj v_val = v_2317865_25;
 R[1] = v_sym;
 R[2] = v_val;
 R[3] = v_globals;
 saveCont(co, clofun77, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_sym, v_val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v_sym, v_val);
 return;
 }
 }
@@ -4596,8 +4681,8 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v_2317784_25 = primGenSym(co);
-Obj v_tmp = v_2317784_25;
+Obj v_2317858_25 = primGenSym(co);
+Obj v_tmp = v_2317858_25;
 R[1] = v_x;
 R[2] = v_tmp;
 saveCont(co, clofun76, 1, R);
@@ -4606,14 +4691,14 @@ return;
 }
 case 1:
 {
-Obj v_2317785_25= co->res;
+Obj v_2317859_25= co->res;
 Obj v_x = R[1];
 Obj v_tmp = R[2];
-Obj v_2317786_25 = makeCons(co->gc, v_2317785_25, Nil);
-Obj v_2317787_25 = makeCons(co->gc, v_x, v_2317786_25);
-Obj v_2317788_25 = makeCons(co->gc, v_tmp, v_2317787_25);
-Obj v_2317789_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317788_25);
-coraReturn(co, v_2317789_25);
+Obj v_2317860_25 = makeCons(co->gc, v_2317859_25, Nil);
+Obj v_2317861_25 = makeCons(co->gc, v_x, v_2317860_25);
+Obj v_2317862_25 = makeCons(co->gc, v_tmp, v_2317861_25);
+Obj v_2317863_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317862_25);
+coraReturn(co, v_2317863_25);
 return;
 }
 }
@@ -4628,47 +4713,47 @@ Obj v_val = R[2];
 R[1] = v_val;
 R[2] = v_v;
 saveCont(co, clofun75, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v_2317782_25= co->res;
+Obj v_2317856_25= co->res;
 Obj v_v = R[1];
 Obj v_cur1 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v_cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), v_cur1);
 return;
 }
 case 2:
 {
-Obj v_2317777_25= co->res;
+Obj v_2317851_25= co->res;
 Obj v_val = R[1];
 Obj v_idx = R[2];
 Obj v_v = R[3];
-Obj v_cur = v_2317777_25;
-Obj v_2317778_25 = makeCons(co->gc, v_val, Nil);
-Obj v_2317779_25 = makeCons(co->gc, v_idx, v_2317778_25);
-Obj v_2317780_25 = makeCons(co->gc, v_2317779_25, v_cur);
-Obj v_cur1 = v_2317780_25;
-Obj v_2317781_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_cur = v_2317851_25;
+Obj v_2317852_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2317853_25 = makeCons(co->gc, v_idx, v_2317852_25);
+Obj v_2317854_25 = makeCons(co->gc, v_2317853_25, v_cur);
+Obj v_cur1 = v_2317854_25;
+Obj v_2317855_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
 R[1] = v_v;
 R[2] = v_cur1;
 saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2317781_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), v_2317855_25);
 return;
 }
 case 3:
 {
-Obj v_2317776_25= co->res;
+Obj v_2317850_25= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v_idx = v_2317776_25;
+Obj v_idx = v_2317850_25;
 R[1] = v_val;
 R[2] = v_idx;
 R[3] = v_v;
 saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4678,121 +4763,121 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316714_25 = R[1];
-Obj v_2316715_25 = R[2];
-Obj v_2316716_25 = makeNative(co->gc, 1, clofun73, 0, 2, v_2316714_25, v_2316715_25);
-Obj v_2317727_25 = PRIM_ISCONS(v_2316715_25);
-if (True == v_2317727_25) {
-Obj v_2317728_25 = PRIM_CAR(v_2316715_25);
-Obj v_2317729_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317728_25);
-if (True == v_2317729_25) {
-Obj v_2317730_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317731_25 = PRIM_ISCONS(v_2317730_25);
-if (True == v_2317731_25) {
-Obj v_2317732_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317733_25 = PRIM_CAR(v_2317732_25);
-Obj v_2317734_25 = PRIM_ISCONS(v_2317733_25);
-if (True == v_2317734_25) {
-Obj v_2317735_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317736_25 = PRIM_CAR(v_2317735_25);
-Obj v_2317737_25 = PRIM_CAR(v_2317736_25);
-Obj v_2317738_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317737_25);
-if (True == v_2317738_25) {
-Obj v_2317739_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317740_25 = PRIM_CAR(v_2317739_25);
-Obj v_2317741_25 = PRIM_CDR(v_2317740_25);
-Obj v_2317742_25 = PRIM_ISCONS(v_2317741_25);
-if (True == v_2317742_25) {
-Obj v_2317743_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317744_25 = PRIM_CAR(v_2317743_25);
-Obj v_2317745_25 = PRIM_CDR(v_2317744_25);
-Obj v_2317746_25 = PRIM_CAR(v_2317745_25);
-Obj v_params = v_2317746_25;
-Obj v_2317747_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317748_25 = PRIM_CAR(v_2317747_25);
-Obj v_2317749_25 = PRIM_CDR(v_2317748_25);
-Obj v_2317750_25 = PRIM_CDR(v_2317749_25);
-Obj v_2317751_25 = PRIM_ISCONS(v_2317750_25);
-if (True == v_2317751_25) {
-Obj v_2317752_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317753_25 = PRIM_CAR(v_2317752_25);
-Obj v_2317754_25 = PRIM_CDR(v_2317753_25);
-Obj v_2317755_25 = PRIM_CDR(v_2317754_25);
-Obj v_2317756_25 = PRIM_CAR(v_2317755_25);
-Obj v_body = v_2317756_25;
-Obj v_2317757_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317758_25 = PRIM_CAR(v_2317757_25);
-Obj v_2317759_25 = PRIM_CDR(v_2317758_25);
-Obj v_2317760_25 = PRIM_CDR(v_2317759_25);
-Obj v_2317761_25 = PRIM_CDR(v_2317760_25);
-Obj v_2317762_25 = PRIM_EQ(Nil, v_2317761_25);
-if (True == v_2317762_25) {
-Obj v_2317763_25 = PRIM_CDR(v_2316715_25);
-Obj v_2317764_25 = PRIM_CDR(v_2317763_25);
-Obj v_fvs = v_2317764_25;
-R[1] = v_2316714_25;
+Obj v_2316788_25 = R[1];
+Obj v_2316789_25 = R[2];
+Obj v_2316790_25 = makeNative(co->gc, 1, clofun73, 0, 2, v_2316788_25, v_2316789_25);
+Obj v_2317801_25 = PRIM_ISCONS(v_2316789_25);
+if (True == v_2317801_25) {
+Obj v_2317802_25 = PRIM_CAR(v_2316789_25);
+Obj v_2317803_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317802_25);
+if (True == v_2317803_25) {
+Obj v_2317804_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317805_25 = PRIM_ISCONS(v_2317804_25);
+if (True == v_2317805_25) {
+Obj v_2317806_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317807_25 = PRIM_CAR(v_2317806_25);
+Obj v_2317808_25 = PRIM_ISCONS(v_2317807_25);
+if (True == v_2317808_25) {
+Obj v_2317809_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317810_25 = PRIM_CAR(v_2317809_25);
+Obj v_2317811_25 = PRIM_CAR(v_2317810_25);
+Obj v_2317812_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317811_25);
+if (True == v_2317812_25) {
+Obj v_2317813_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317814_25 = PRIM_CAR(v_2317813_25);
+Obj v_2317815_25 = PRIM_CDR(v_2317814_25);
+Obj v_2317816_25 = PRIM_ISCONS(v_2317815_25);
+if (True == v_2317816_25) {
+Obj v_2317817_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317818_25 = PRIM_CAR(v_2317817_25);
+Obj v_2317819_25 = PRIM_CDR(v_2317818_25);
+Obj v_2317820_25 = PRIM_CAR(v_2317819_25);
+Obj v_params = v_2317820_25;
+Obj v_2317821_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317822_25 = PRIM_CAR(v_2317821_25);
+Obj v_2317823_25 = PRIM_CDR(v_2317822_25);
+Obj v_2317824_25 = PRIM_CDR(v_2317823_25);
+Obj v_2317825_25 = PRIM_ISCONS(v_2317824_25);
+if (True == v_2317825_25) {
+Obj v_2317826_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317827_25 = PRIM_CAR(v_2317826_25);
+Obj v_2317828_25 = PRIM_CDR(v_2317827_25);
+Obj v_2317829_25 = PRIM_CDR(v_2317828_25);
+Obj v_2317830_25 = PRIM_CAR(v_2317829_25);
+Obj v_body = v_2317830_25;
+Obj v_2317831_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317832_25 = PRIM_CAR(v_2317831_25);
+Obj v_2317833_25 = PRIM_CDR(v_2317832_25);
+Obj v_2317834_25 = PRIM_CDR(v_2317833_25);
+Obj v_2317835_25 = PRIM_CDR(v_2317834_25);
+Obj v_2317836_25 = PRIM_EQ(Nil, v_2317835_25);
+if (True == v_2317836_25) {
+Obj v_2317837_25 = PRIM_CDR(v_2316789_25);
+Obj v_2317838_25 = PRIM_CDR(v_2317837_25);
+Obj v_fvs = v_2317838_25;
+R[1] = v_2316788_25;
 R[2] = v_params;
 R[3] = v_fvs;
 saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2316714_25, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_2316788_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316716_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317770_25= co->res;
+Obj v_2317844_25= co->res;
 Obj v_nframe = R[1];
 Obj v_fvs = R[2];
 Obj v_cur = R[3];
-Obj v_2317771_25 = makeCons(co->gc, v_nframe, v_fvs);
-Obj v_2317772_25 = makeCons(co->gc, v_2317770_25, v_2317771_25);
-Obj v_2317773_25 = makeCons(co->gc, v_cur, v_2317772_25);
-Obj v_2317774_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317773_25);
-coraReturn(co, v_2317774_25);
+Obj v_2317845_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2317846_25 = makeCons(co->gc, v_2317844_25, v_2317845_25);
+Obj v_2317847_25 = makeCons(co->gc, v_cur, v_2317846_25);
+Obj v_2317848_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317847_25);
+coraReturn(co, v_2317848_25);
 return;
 }
 case 2:
 {
-Obj v_2317769_25= co->res;
+Obj v_2317843_25= co->res;
 Obj v_params = R[1];
 Obj v_nframe = R[2];
 Obj v_fvs = R[3];
@@ -4801,72 +4886,72 @@ R[1] = v_nframe;
 R[2] = v_fvs;
 R[3] = v_cur;
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_params);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_params);
 return;
 }
 case 3:
 {
-Obj v_2317768_25= co->res;
-Obj v_2316714_25 = R[1];
+Obj v_2317842_25= co->res;
+Obj v_2316788_25 = R[1];
 Obj v_body2 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
 Obj v_cur = R[5];
-Obj v_nframe = v_2317768_25;
+Obj v_nframe = v_2317842_25;
 R[1] = v_params;
 R[2] = v_nframe;
 R[3] = v_fvs;
 R[4] = v_cur;
 saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2316714_25, v_body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2316788_25, v_body2);
 return;
 }
 case 4:
 {
-Obj v_2317767_25= co->res;
-Obj v_2316714_25 = R[1];
+Obj v_2317841_25= co->res;
+Obj v_2316788_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
 Obj v_cur = R[4];
-Obj v_body2 = v_2317767_25;
-R[1] = v_2316714_25;
+Obj v_body2 = v_2317841_25;
+R[1] = v_2316788_25;
 R[2] = v_body2;
 R[3] = v_params;
 R[4] = v_fvs;
 R[5] = v_cur;
 saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_body2);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_body2);
 return;
 }
 case 5:
 {
-Obj v_2317766_25= co->res;
+Obj v_2317840_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2316714_25 = R[2];
+Obj v_2316788_25 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
-Obj v_cur = v_2317766_25;
-R[1] = v_2316714_25;
+Obj v_cur = v_2317840_25;
+R[1] = v_2316788_25;
 R[2] = v_params;
 R[3] = v_fvs;
 R[4] = v_cur;
 saveCont(co, clofun74, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v_params, v_body1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), v_params, v_body1);
 return;
 }
 case 6:
 {
-Obj v_2317765_25= co->res;
-Obj v_2316714_25 = R[1];
+Obj v_2317839_25= co->res;
+Obj v_2316788_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
-Obj v_body1 = v_2317765_25;
+Obj v_body1 = v_2317839_25;
 R[1] = v_body1;
-R[2] = v_2316714_25;
+R[2] = v_2316788_25;
 R[3] = v_params;
 R[4] = v_fvs;
 saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2316714_25, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2316788_25, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4876,10 +4961,10 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317725_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317725_25) {
+Obj v_2317799_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317799_25) {
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), closureRef(R[0], 0));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -4888,9 +4973,9 @@ return;
 }
 case 1:
 {
-Obj v_2317726_25= co->res;
+Obj v_2317800_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317726_25, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317800_25, closureRef(R[0], 1));
 return;
 }
 }
@@ -4903,35 +4988,35 @@ case 0:
 Obj v_lam = R[1];
 R[1] = v_lam;
 saveCont(co, clofun72, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_lam);
 return;
 }
 case 1:
 {
-Obj v_2317723_25= co->res;
-Obj v_2317722_25 = R[1];
+Obj v_2317797_25= co->res;
+Obj v_2317796_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), v_2317722_25, v_2317723_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun71, 2, 0), v_2317796_25, v_2317797_25);
 return;
 }
 case 2:
 {
-Obj v_2317717_25= co->res;
+Obj v_2317791_25= co->res;
 Obj v_lam = R[1];
-Obj v_nargs = v_2317717_25;
-Obj v_2317722_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
-R[1] = v_2317722_25;
+Obj v_nargs = v_2317791_25;
+Obj v_2317796_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2317796_25;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
 return;
 }
 case 3:
 {
-Obj v_2317716_25= co->res;
+Obj v_2317790_25= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317716_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2317790_25);
 return;
 }
 }
@@ -4945,17 +5030,17 @@ Obj v_acc = R[1];
 Obj v_x = R[2];
 R[1] = v_acc;
 saveCont(co, clofun71, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_x);
 return;
 }
 case 1:
 {
-Obj v_2317719_25= co->res;
+Obj v_2317793_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317720_25 = PRIM_ADD(v_2317719_25, MAKE_NUMBER(1));
-Obj v_len = v_2317720_25;
-Obj v_2317721_25 = PRIM_GT(v_len, v_acc);
-if (True == v_2317721_25) {
+Obj v_2317794_25 = PRIM_ADD(v_2317793_25, MAKE_NUMBER(1));
+Obj v_len = v_2317794_25;
+Obj v_2317795_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2317795_25) {
 coraReturn(co, v_len);
 return;
 } else {
@@ -4965,11 +5050,11 @@ return;
 }
 case 2:
 {
-Obj v_2317718_25= co->res;
+Obj v_2317792_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317718_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2317792_25);
 return;
 }
 }
@@ -4982,7 +5067,7 @@ case 0:
 Obj v_params = R[1];
 Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, v_params));
 return;
 }
 }
@@ -4996,17 +5081,17 @@ Obj v_body1 = R[1];
 Obj v_conts = R[2];
 R[1] = v_body1;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_conts);
 return;
 }
 case 1:
 {
-Obj v_2317711_25= co->res;
+Obj v_2317785_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2317712_25 = makeCons(co->gc, v_body1, v_2317711_25);
-Obj v_2317713_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317712_25);
-Obj v_2317714_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317713_25);
-coraReturn(co, v_2317714_25);
+Obj v_2317786_25 = makeCons(co->gc, v_body1, v_2317785_25);
+Obj v_2317787_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317786_25);
+Obj v_2317788_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317787_25);
+coraReturn(co, v_2317788_25);
 return;
 }
 }
@@ -5016,28 +5101,28 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316708_25 = R[1];
-Obj v_2316709_25 = R[2];
-Obj v_2316710_25 = R[3];
-Obj v_2316711_25 = R[4];
-Obj v_2317705_25 = PRIM_EQ(Nil, v_2316708_25);
-if (True == v_2317705_25) {
+Obj v_2316782_25 = R[1];
+Obj v_2316783_25 = R[2];
+Obj v_2316784_25 = R[3];
+Obj v_2316785_25 = R[4];
+Obj v_2317779_25 = PRIM_EQ(Nil, v_2316782_25);
+if (True == v_2317779_25) {
 co->ctx.sp = R;
-coraCall2(co, v_2316711_25, v_2316710_25, v_2316709_25);
+coraCall2(co, v_2316785_25, v_2316784_25, v_2316783_25);
 return;
 } else {
-Obj v_2317706_25 = PRIM_ISCONS(v_2316708_25);
-if (True == v_2317706_25) {
-Obj v_2317707_25 = PRIM_CAR(v_2316708_25);
-Obj v_f = v_2317707_25;
-Obj v_2317708_25 = PRIM_CDR(v_2316708_25);
-Obj v_args = v_2317708_25;
+Obj v_2317780_25 = PRIM_ISCONS(v_2316782_25);
+if (True == v_2317780_25) {
+Obj v_2317781_25 = PRIM_CAR(v_2316782_25);
+Obj v_f = v_2317781_25;
+Obj v_2317782_25 = PRIM_CDR(v_2316782_25);
+Obj v_args = v_2317782_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2316709_25, makeNative(co->gc, 3, clofun67, 2, 3, v_args, v_2316710_25, v_2316711_25));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_f, v_2316783_25, makeNative(co->gc, 3, clofun67, 2, 3, v_args, v_2316784_25, v_2316785_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5052,7 +5137,7 @@ case 0:
 Obj v_f1 = R[1];
 Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
@@ -5064,9 +5149,9 @@ case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v_2317709_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v_2317783_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2317709_25, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v_2317783_25, v_conts2);
 return;
 }
 }
@@ -5076,33 +5161,33 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316702_25 = R[1];
-Obj v_2316703_25 = R[2];
-Obj v_2316704_25 = R[3];
-Obj v_2316778_25 = makeNative(co->gc, 2, clofun64, 1, 3, v_2316702_25, v_2316703_25, v_2316704_25);
-Obj v_2317702_25 = primIsSymbol(v_2316702_25);
-if (True == v_2317702_25) {
+Obj v_2316776_25 = R[1];
+Obj v_2316777_25 = R[2];
+Obj v_2316778_25 = R[3];
+Obj v_2316852_25 = makeNative(co->gc, 2, clofun64, 1, 3, v_2316776_25, v_2316777_25, v_2316778_25);
+Obj v_2317776_25 = primIsSymbol(v_2316776_25);
+if (True == v_2317776_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316778_25, True);
+coraCall1(co, v_2316852_25, True);
 return;
 } else {
-R[1] = v_2316778_25;
+R[1] = v_2316852_25;
 saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316702_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316776_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317703_25= co->res;
-Obj v_2316778_25 = R[1];
-if (True == v_2317703_25) {
+Obj v_2317777_25= co->res;
+Obj v_2316852_25 = R[1];
+if (True == v_2317777_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316778_25, True);
+coraCall1(co, v_2316852_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316778_25, False);
+coraCall1(co, v_2316852_25, False);
 return;
 }
 }
@@ -5113,63 +5198,63 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316779_25 = R[1];
-if (True == v_2316779_25) {
+Obj v_2316853_25 = R[1];
+if (True == v_2316853_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2316706_25 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317678_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317678_25) {
-Obj v_2317679_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317680_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317679_25);
-if (True == v_2317680_25) {
-Obj v_2317681_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317682_25 = PRIM_ISCONS(v_2317681_25);
-if (True == v_2317682_25) {
-Obj v_2317683_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317684_25 = PRIM_CAR(v_2317683_25);
-Obj v_exp = v_2317684_25;
-Obj v_2317685_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317686_25 = PRIM_CDR(v_2317685_25);
-Obj v_2317687_25 = PRIM_ISCONS(v_2317686_25);
-if (True == v_2317687_25) {
-Obj v_2317688_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317689_25 = PRIM_CDR(v_2317688_25);
-Obj v_2317690_25 = PRIM_CAR(v_2317689_25);
-Obj v_cont = v_2317690_25;
-Obj v_2317691_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317692_25 = PRIM_CDR(v_2317691_25);
-Obj v_2317693_25 = PRIM_CDR(v_2317692_25);
-Obj v_2317694_25 = PRIM_EQ(Nil, v_2317693_25);
-if (True == v_2317694_25) {
+Obj v_2316780_25 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317752_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317752_25) {
+Obj v_2317753_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317754_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317753_25);
+if (True == v_2317754_25) {
+Obj v_2317755_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317756_25 = PRIM_ISCONS(v_2317755_25);
+if (True == v_2317756_25) {
+Obj v_2317757_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317758_25 = PRIM_CAR(v_2317757_25);
+Obj v_exp = v_2317758_25;
+Obj v_2317759_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317760_25 = PRIM_CDR(v_2317759_25);
+Obj v_2317761_25 = PRIM_ISCONS(v_2317760_25);
+if (True == v_2317761_25) {
+Obj v_2317762_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317763_25 = PRIM_CDR(v_2317762_25);
+Obj v_2317764_25 = PRIM_CAR(v_2317763_25);
+Obj v_cont = v_2317764_25;
+Obj v_2317765_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317766_25 = PRIM_CDR(v_2317765_25);
+Obj v_2317767_25 = PRIM_CDR(v_2317766_25);
+Obj v_2317768_25 = PRIM_EQ(Nil, v_2317767_25);
+if (True == v_2317768_25) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), v_exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316780_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316780_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316780_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316780_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316780_25);
 return;
 }
 }
@@ -5186,35 +5271,35 @@ Obj v_conts1 = R[2];
 R[1] = v_cont1;
 R[2] = v_conts1;
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_cont1);
 return;
 }
 case 1:
 {
-Obj v_2317696_25= co->res;
+Obj v_2317770_25= co->res;
 Obj v_fvs = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v_2317697_25 = PRIM_ADD(v_2317696_25, MAKE_NUMBER(1));
-Obj v_2317698_25 = makeCons(co->gc, v_2317697_25, v_fvs);
-Obj v_2317699_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317698_25);
-Obj v_2317700_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317699_25);
-Obj v_2317701_25 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v_2317771_25 = PRIM_ADD(v_2317770_25, MAKE_NUMBER(1));
+Obj v_2317772_25 = makeCons(co->gc, v_2317771_25, v_fvs);
+Obj v_2317773_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317772_25);
+Obj v_2317774_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317773_25);
+Obj v_2317775_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2317700_25, v_2317701_25);
+coraCall2(co, closureRef(R[0], 0), v_2317774_25, v_2317775_25);
 return;
 }
 case 2:
 {
-Obj v_2317695_25= co->res;
+Obj v_2317769_25= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v_fvs = v_2317695_25;
+Obj v_fvs = v_2317769_25;
 R[1] = v_fvs;
 R[2] = v_cont1;
 R[3] = v_conts1;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_conts1);
 return;
 }
 }
@@ -5224,19 +5309,19 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317674_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317674_25) {
-Obj v_2317675_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317675_25;
-Obj v_2317676_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317676_25;
-Obj v_2317677_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317748_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317748_25) {
+Obj v_2317749_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317749_25;
+Obj v_2317750_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317750_25;
+Obj v_2317751_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2317677_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), v_2317751_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5247,90 +5332,90 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316694_25 = R[1];
-Obj v_2316695_25 = R[2];
-R[1] = v_2316695_25;
-R[2] = v_2316694_25;
+Obj v_2316768_25 = R[1];
+Obj v_2316769_25 = R[2];
+R[1] = v_2316769_25;
+R[2] = v_2316768_25;
 saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316695_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316769_25);
 return;
 }
 case 1:
 {
-Obj v_2317669_25= co->res;
+Obj v_2317743_25= co->res;
 Obj v_args = R[1];
-Obj v_2317670_25 = makeCons(co->gc, v_2317669_25, Nil);
-Obj v_2317671_25 = makeCons(co->gc, v_args, v_2317670_25);
-Obj v_2317672_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317671_25);
-coraReturn(co, v_2317672_25);
+Obj v_2317744_25 = makeCons(co->gc, v_2317743_25, Nil);
+Obj v_2317745_25 = makeCons(co->gc, v_args, v_2317744_25);
+Obj v_2317746_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317745_25);
+coraReturn(co, v_2317746_25);
 return;
 }
 case 2:
 {
-Obj v_2317597_25= co->res;
-Obj v_2316695_25 = R[1];
-Obj v_2316694_25 = R[2];
-if (True == v_2317597_25) {
-coraReturn(co, v_2316695_25);
-return;
-} else {
-Obj v_2317598_25 = primIsSymbol(v_2316695_25);
-if (True == v_2317598_25) {
-coraReturn(co, v_2316695_25);
-return;
-} else {
-Obj v_2316698_25 = makeNative(co->gc, 4, clofun60, 0, 2, v_2316695_25, v_2316694_25);
-Obj v_2317652_25 = PRIM_ISCONS(v_2316695_25);
-if (True == v_2317652_25) {
-Obj v_2317653_25 = PRIM_CAR(v_2316695_25);
-Obj v_2317654_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317653_25);
-if (True == v_2317654_25) {
-Obj v_2317655_25 = PRIM_CDR(v_2316695_25);
-Obj v_2317656_25 = PRIM_ISCONS(v_2317655_25);
-if (True == v_2317656_25) {
-Obj v_2317657_25 = PRIM_CDR(v_2316695_25);
-Obj v_2317658_25 = PRIM_CAR(v_2317657_25);
-Obj v_args = v_2317658_25;
-Obj v_2317659_25 = PRIM_CDR(v_2316695_25);
-Obj v_2317660_25 = PRIM_CDR(v_2317659_25);
-Obj v_2317661_25 = PRIM_ISCONS(v_2317660_25);
-if (True == v_2317661_25) {
-Obj v_2317662_25 = PRIM_CDR(v_2316695_25);
-Obj v_2317663_25 = PRIM_CDR(v_2317662_25);
-Obj v_2317664_25 = PRIM_CAR(v_2317663_25);
-Obj v_body = v_2317664_25;
-Obj v_2317665_25 = PRIM_CDR(v_2316695_25);
-Obj v_2317666_25 = PRIM_CDR(v_2317665_25);
-Obj v_2317667_25 = PRIM_CDR(v_2317666_25);
-Obj v_2317668_25 = PRIM_EQ(Nil, v_2317667_25);
-if (True == v_2317668_25) {
+Obj v_2317671_25= co->res;
+Obj v_2316769_25 = R[1];
+Obj v_2316768_25 = R[2];
+if (True == v_2317671_25) {
+coraReturn(co, v_2316769_25);
+return;
+} else {
+Obj v_2317672_25 = primIsSymbol(v_2316769_25);
+if (True == v_2317672_25) {
+coraReturn(co, v_2316769_25);
+return;
+} else {
+Obj v_2316772_25 = makeNative(co->gc, 4, clofun60, 0, 2, v_2316769_25, v_2316768_25);
+Obj v_2317726_25 = PRIM_ISCONS(v_2316769_25);
+if (True == v_2317726_25) {
+Obj v_2317727_25 = PRIM_CAR(v_2316769_25);
+Obj v_2317728_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317727_25);
+if (True == v_2317728_25) {
+Obj v_2317729_25 = PRIM_CDR(v_2316769_25);
+Obj v_2317730_25 = PRIM_ISCONS(v_2317729_25);
+if (True == v_2317730_25) {
+Obj v_2317731_25 = PRIM_CDR(v_2316769_25);
+Obj v_2317732_25 = PRIM_CAR(v_2317731_25);
+Obj v_args = v_2317732_25;
+Obj v_2317733_25 = PRIM_CDR(v_2316769_25);
+Obj v_2317734_25 = PRIM_CDR(v_2317733_25);
+Obj v_2317735_25 = PRIM_ISCONS(v_2317734_25);
+if (True == v_2317735_25) {
+Obj v_2317736_25 = PRIM_CDR(v_2316769_25);
+Obj v_2317737_25 = PRIM_CDR(v_2317736_25);
+Obj v_2317738_25 = PRIM_CAR(v_2317737_25);
+Obj v_body = v_2317738_25;
+Obj v_2317739_25 = PRIM_CDR(v_2316769_25);
+Obj v_2317740_25 = PRIM_CDR(v_2317739_25);
+Obj v_2317741_25 = PRIM_CDR(v_2317740_25);
+Obj v_2317742_25 = PRIM_EQ(Nil, v_2317741_25);
+if (True == v_2317742_25) {
 R[1] = v_args;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v_2316694_25, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_2316768_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316698_25);
+coraCall0(co, v_2316772_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316698_25);
+coraCall0(co, v_2316772_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316698_25);
+coraCall0(co, v_2316772_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316698_25);
+coraCall0(co, v_2316772_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316698_25);
+coraCall0(co, v_2316772_25);
 return;
 }
 }
@@ -5343,89 +5428,89 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316699_25 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317627_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317627_25) {
-Obj v_2317628_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317629_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317628_25);
-if (True == v_2317629_25) {
-Obj v_2317630_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317631_25 = PRIM_ISCONS(v_2317630_25);
-if (True == v_2317631_25) {
-Obj v_2317632_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317633_25 = PRIM_CAR(v_2317632_25);
-Obj v_val = v_2317633_25;
-Obj v_2317634_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317635_25 = PRIM_CDR(v_2317634_25);
-Obj v_2317636_25 = PRIM_ISCONS(v_2317635_25);
-if (True == v_2317636_25) {
-Obj v_2317637_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317638_25 = PRIM_CDR(v_2317637_25);
-Obj v_2317639_25 = PRIM_CAR(v_2317638_25);
-Obj v_body = v_2317639_25;
-Obj v_2317640_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317641_25 = PRIM_CDR(v_2317640_25);
-Obj v_2317642_25 = PRIM_CDR(v_2317641_25);
-Obj v_2317643_25 = PRIM_EQ(Nil, v_2317642_25);
-if (True == v_2317643_25) {
+Obj v_2316773_25 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317701_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317701_25) {
+Obj v_2317702_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317703_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317702_25);
+if (True == v_2317703_25) {
+Obj v_2317704_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317705_25 = PRIM_ISCONS(v_2317704_25);
+if (True == v_2317705_25) {
+Obj v_2317706_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317707_25 = PRIM_CAR(v_2317706_25);
+Obj v_val = v_2317707_25;
+Obj v_2317708_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317709_25 = PRIM_CDR(v_2317708_25);
+Obj v_2317710_25 = PRIM_ISCONS(v_2317709_25);
+if (True == v_2317710_25) {
+Obj v_2317711_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317712_25 = PRIM_CDR(v_2317711_25);
+Obj v_2317713_25 = PRIM_CAR(v_2317712_25);
+Obj v_body = v_2317713_25;
+Obj v_2317714_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317715_25 = PRIM_CDR(v_2317714_25);
+Obj v_2317716_25 = PRIM_CDR(v_2317715_25);
+Obj v_2317717_25 = PRIM_EQ(Nil, v_2317716_25);
+if (True == v_2317717_25) {
 R[1] = v_body;
 R[2] = v_val;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316699_25);
+coraCall0(co, v_2316773_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316699_25);
+coraCall0(co, v_2316773_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316699_25);
+coraCall0(co, v_2316773_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316699_25);
+coraCall0(co, v_2316773_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316699_25);
+coraCall0(co, v_2316773_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317648_25= co->res;
+Obj v_2317722_25= co->res;
 Obj v_fvs2 = R[1];
 Obj v_val = R[2];
-Obj v_2317649_25 = makeCons(co->gc, v_2317648_25, v_fvs2);
-Obj v_2317650_25 = makeCons(co->gc, v_val, v_2317649_25);
-Obj v_2317651_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2317650_25);
-coraReturn(co, v_2317651_25);
+Obj v_2317723_25 = makeCons(co->gc, v_2317722_25, v_fvs2);
+Obj v_2317724_25 = makeCons(co->gc, v_val, v_2317723_25);
+Obj v_2317725_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2317724_25);
+coraReturn(co, v_2317725_25);
 return;
 }
 case 2:
 {
-Obj v_2317647_25= co->res;
+Obj v_2317721_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
-Obj v_fvs2 = v_2317647_25;
+Obj v_fvs2 = v_2317721_25;
 R[1] = v_fvs2;
 R[2] = v_val;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v_fvs1, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_fvs1, v_body);
 return;
 }
 case 3:
 {
-Obj v_2317646_25= co->res;
+Obj v_2317720_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
@@ -5433,31 +5518,31 @@ R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317646_25, v_fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317720_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2317645_25= co->res;
+Obj v_2317719_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
-Obj v_fvs1 = v_2317645_25;
+Obj v_fvs1 = v_2317719_25;
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v_2317644_25= co->res;
+Obj v_2317718_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
 R[1] = v_body;
 R[2] = v_val;
 saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317644_25, v_val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317718_25, v_val);
 return;
 }
 }
@@ -5467,89 +5552,89 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316700_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317604_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317604_25) {
-Obj v_2317605_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317606_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317605_25);
-if (True == v_2317606_25) {
-Obj v_2317607_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317608_25 = PRIM_ISCONS(v_2317607_25);
-if (True == v_2317608_25) {
-Obj v_2317609_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317610_25 = PRIM_CAR(v_2317609_25);
-Obj v_exp = v_2317610_25;
-Obj v_2317611_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317612_25 = PRIM_CDR(v_2317611_25);
-Obj v_2317613_25 = PRIM_ISCONS(v_2317612_25);
-if (True == v_2317613_25) {
-Obj v_2317614_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317615_25 = PRIM_CDR(v_2317614_25);
-Obj v_2317616_25 = PRIM_CAR(v_2317615_25);
-Obj v_cont = v_2317616_25;
-Obj v_2317617_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317618_25 = PRIM_CDR(v_2317617_25);
-Obj v_2317619_25 = PRIM_CDR(v_2317618_25);
-Obj v_2317620_25 = PRIM_EQ(Nil, v_2317619_25);
-if (True == v_2317620_25) {
+Obj v_2316774_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317678_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317678_25) {
+Obj v_2317679_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317680_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317679_25);
+if (True == v_2317680_25) {
+Obj v_2317681_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317682_25 = PRIM_ISCONS(v_2317681_25);
+if (True == v_2317682_25) {
+Obj v_2317683_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317684_25 = PRIM_CAR(v_2317683_25);
+Obj v_exp = v_2317684_25;
+Obj v_2317685_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317686_25 = PRIM_CDR(v_2317685_25);
+Obj v_2317687_25 = PRIM_ISCONS(v_2317686_25);
+if (True == v_2317687_25) {
+Obj v_2317688_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317689_25 = PRIM_CDR(v_2317688_25);
+Obj v_2317690_25 = PRIM_CAR(v_2317689_25);
+Obj v_cont = v_2317690_25;
+Obj v_2317691_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317692_25 = PRIM_CDR(v_2317691_25);
+Obj v_2317693_25 = PRIM_CDR(v_2317692_25);
+Obj v_2317694_25 = PRIM_EQ(Nil, v_2317693_25);
+if (True == v_2317694_25) {
 R[1] = v_exp;
 R[2] = v_cont;
 saveCont(co, clofun59, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316700_25);
+coraCall0(co, v_2316774_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316700_25);
+coraCall0(co, v_2316774_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316700_25);
+coraCall0(co, v_2316774_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316700_25);
+coraCall0(co, v_2316774_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316700_25);
+coraCall0(co, v_2316774_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317623_25= co->res;
-Obj v_2317622_25 = R[1];
-Obj v_2317624_25 = makeCons(co->gc, v_2317623_25, Nil);
-Obj v_2317625_25 = makeCons(co->gc, v_2317622_25, v_2317624_25);
-Obj v_2317626_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317625_25);
-coraReturn(co, v_2317626_25);
+Obj v_2317697_25= co->res;
+Obj v_2317696_25 = R[1];
+Obj v_2317698_25 = makeCons(co->gc, v_2317697_25, Nil);
+Obj v_2317699_25 = makeCons(co->gc, v_2317696_25, v_2317698_25);
+Obj v_2317700_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317699_25);
+coraReturn(co, v_2317700_25);
 return;
 }
 case 2:
 {
-Obj v_2317622_25= co->res;
+Obj v_2317696_25= co->res;
 Obj v_cont = R[1];
-R[1] = v_2317622_25;
+R[1] = v_2317696_25;
 saveCont(co, clofun59, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v_cont);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj v_2317621_25= co->res;
+Obj v_2317695_25= co->res;
 Obj v_exp = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317621_25, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317695_25, v_exp);
 return;
 }
 }
@@ -5559,31 +5644,31 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317599_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317599_25) {
-Obj v_2317600_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317600_25;
-Obj v_2317601_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317601_25;
+Obj v_2317673_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317673_25) {
+Obj v_2317674_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317674_25;
+Obj v_2317675_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317675_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317602_25= co->res;
+Obj v_2317676_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2317603_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317677_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317602_25, v_2317603_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317676_25, v_2317677_25);
 return;
 }
 }
@@ -5593,74 +5678,74 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316689_25 = R[1];
-Obj v_2316690_25 = R[2];
-Obj v_2316691_25 = R[3];
-Obj v_2317574_25 = PRIM_EQ(Nil, v_2316689_25);
-if (True == v_2317574_25) {
-R[1] = v_2316691_25;
+Obj v_2316763_25 = R[1];
+Obj v_2316764_25 = R[2];
+Obj v_2316765_25 = R[3];
+Obj v_2317648_25 = PRIM_EQ(Nil, v_2316763_25);
+if (True == v_2317648_25) {
+R[1] = v_2316765_25;
 saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_2316690_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316764_25);
 return;
 } else {
-Obj v_2317592_25 = PRIM_ISCONS(v_2316689_25);
-if (True == v_2317592_25) {
-Obj v_2317593_25 = PRIM_CAR(v_2316689_25);
-Obj v_hd = v_2317593_25;
-Obj v_2317594_25 = PRIM_CDR(v_2316689_25);
-Obj v_tl = v_2317594_25;
+Obj v_2317666_25 = PRIM_ISCONS(v_2316763_25);
+if (True == v_2317666_25) {
+Obj v_2317667_25 = PRIM_CAR(v_2316763_25);
+Obj v_hd = v_2317667_25;
+Obj v_2317668_25 = PRIM_CDR(v_2316763_25);
+Obj v_tl = v_2317668_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_hd, makeNative(co->gc, 2, clofun56, 1, 3, v_tl, v_2316690_25, v_2316691_25));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_hd, makeNative(co->gc, 2, clofun56, 1, 3, v_tl, v_2316764_25, v_2316765_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317590_25= co->res;
-Obj v_2316776_25 = R[1];
-Obj v_2317591_25 = PRIM_EQ(v_2317590_25, getBinding(co, packageID, 90).name);
-if (True == v_2317591_25) {
+Obj v_2317664_25= co->res;
+Obj v_2316850_25 = R[1];
+Obj v_2317665_25 = PRIM_EQ(v_2317664_25, getBinding(co, packageID, 91).name);
+if (True == v_2317665_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316776_25, True);
+coraCall1(co, v_2316850_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316776_25, False);
+coraCall1(co, v_2316850_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317589_25= co->res;
+Obj v_2317663_25= co->res;
 Obj v_exp = R[1];
-Obj v_2316776_25 = R[2];
-if (True == v_2317589_25) {
-R[1] = v_2316776_25;
+Obj v_2316850_25 = R[2];
+if (True == v_2317663_25) {
+R[1] = v_2316850_25;
 saveCont(co, clofun57, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316776_25, False);
+coraCall1(co, v_2316850_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2317575_25= co->res;
-Obj v_2316691_25 = R[1];
-Obj v_exp = v_2317575_25;
-Obj v_2316776_25 = makeNative(co->gc, 2, clofun55, 1, 2, v_exp, v_2316691_25);
-Obj v_2317588_25 = PRIM_CAR(v_exp);
+Obj v_2317649_25= co->res;
+Obj v_2316765_25 = R[1];
+Obj v_exp = v_2317649_25;
+Obj v_2316850_25 = makeNative(co->gc, 2, clofun55, 1, 2, v_exp, v_2316765_25);
+Obj v_2317662_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2316776_25;
+R[2] = v_2316850_25;
 saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_2317588_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317662_25);
 return;
 }
 }
@@ -5671,9 +5756,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v_2317595_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v_2317669_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v_2317595_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), v_2317669_25, closureRef(R[0], 2));
 return;
 }
 }
@@ -5683,23 +5768,23 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316777_25 = R[1];
-if (True == v_2316777_25) {
+Obj v_2316851_25 = R[1];
+if (True == v_2316851_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2317576_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == v_2317576_25) {
-Obj v_2317577_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2317578_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317577_25);
-coraReturn(co, v_2317578_25);
+Obj v_2317650_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
+if (True == v_2317650_25) {
+Obj v_2317651_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2317652_25 = makeCons(co->gc, getBinding(co, packageID, 75).name, v_2317651_25);
+coraReturn(co, v_2317652_25);
 return;
 } else {
-Obj v_2317579_25 = primGenSym(co);
-Obj v_val = v_2317579_25;
-Obj v_2317580_25 = makeCons(co->gc, v_val, Nil);
-R[1] = v_2317580_25;
+Obj v_2317653_25 = primGenSym(co);
+Obj v_val = v_2317653_25;
+Obj v_2317654_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2317654_25;
 saveCont(co, clofun55, 1, R);
 coraCall1(co, closureRef(R[0], 1), v_val);
 return;
@@ -5708,15 +5793,15 @@ return;
 }
 case 1:
 {
-Obj v_2317581_25= co->res;
-Obj v_2317580_25 = R[1];
-Obj v_2317582_25 = makeCons(co->gc, v_2317581_25, Nil);
-Obj v_2317583_25 = makeCons(co->gc, v_2317580_25, v_2317582_25);
-Obj v_2317584_25 = makeCons(co->gc, getBinding(co, packageID, 75).name, v_2317583_25);
-Obj v_2317585_25 = makeCons(co->gc, v_2317584_25, Nil);
-Obj v_2317586_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317585_25);
-Obj v_2317587_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317586_25);
-coraReturn(co, v_2317587_25);
+Obj v_2317655_25= co->res;
+Obj v_2317654_25 = R[1];
+Obj v_2317656_25 = makeCons(co->gc, v_2317655_25, Nil);
+Obj v_2317657_25 = makeCons(co->gc, v_2317654_25, v_2317656_25);
+Obj v_2317658_25 = makeCons(co->gc, getBinding(co, packageID, 76).name, v_2317657_25);
+Obj v_2317659_25 = makeCons(co->gc, v_2317658_25, Nil);
+Obj v_2317660_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317659_25);
+Obj v_2317661_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317660_25);
+coraReturn(co, v_2317661_25);
 return;
 }
 }
@@ -5726,32 +5811,32 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316680_25 = R[1];
-Obj v_2316681_25 = R[2];
-Obj v_2316774_25 = makeNative(co->gc, 2, clofun53, 1, 2, v_2316680_25, v_2316681_25);
-Obj v_2317571_25 = primIsSymbol(v_2316680_25);
-if (True == v_2317571_25) {
+Obj v_2316754_25 = R[1];
+Obj v_2316755_25 = R[2];
+Obj v_2316848_25 = makeNative(co->gc, 2, clofun53, 1, 2, v_2316754_25, v_2316755_25);
+Obj v_2317645_25 = primIsSymbol(v_2316754_25);
+if (True == v_2317645_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316774_25, True);
+coraCall1(co, v_2316848_25, True);
 return;
 } else {
-R[1] = v_2316774_25;
+R[1] = v_2316848_25;
 saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316680_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316754_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317572_25= co->res;
-Obj v_2316774_25 = R[1];
-if (True == v_2317572_25) {
+Obj v_2317646_25= co->res;
+Obj v_2316848_25 = R[1];
+if (True == v_2317646_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316774_25, True);
+coraCall1(co, v_2316848_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316774_25, False);
+coraCall1(co, v_2316848_25, False);
 return;
 }
 }
@@ -5762,91 +5847,91 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316775_25 = R[1];
-if (True == v_2316775_25) {
+Obj v_2316849_25 = R[1];
+if (True == v_2316849_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
 saveCont(co, clofun53, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v_2317437_25= co->res;
-if (True == v_2317437_25) {
+Obj v_2317511_25= co->res;
+if (True == v_2317511_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v_2316684_25 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317539_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317539_25) {
-Obj v_2317540_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317541_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317540_25);
-if (True == v_2317541_25) {
-Obj v_2317542_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317543_25 = PRIM_ISCONS(v_2317542_25);
-if (True == v_2317543_25) {
-Obj v_2317544_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317545_25 = PRIM_CAR(v_2317544_25);
-Obj v_a = v_2317545_25;
-Obj v_2317546_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317547_25 = PRIM_CDR(v_2317546_25);
-Obj v_2317548_25 = PRIM_ISCONS(v_2317547_25);
-if (True == v_2317548_25) {
-Obj v_2317549_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317550_25 = PRIM_CDR(v_2317549_25);
-Obj v_2317551_25 = PRIM_CAR(v_2317550_25);
-Obj v_b = v_2317551_25;
-Obj v_2317552_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317553_25 = PRIM_CDR(v_2317552_25);
-Obj v_2317554_25 = PRIM_CDR(v_2317553_25);
-Obj v_2317555_25 = PRIM_ISCONS(v_2317554_25);
-if (True == v_2317555_25) {
-Obj v_2317556_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317557_25 = PRIM_CDR(v_2317556_25);
-Obj v_2317558_25 = PRIM_CDR(v_2317557_25);
-Obj v_2317559_25 = PRIM_CAR(v_2317558_25);
-Obj v_c = v_2317559_25;
-Obj v_2317560_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317561_25 = PRIM_CDR(v_2317560_25);
-Obj v_2317562_25 = PRIM_CDR(v_2317561_25);
-Obj v_2317563_25 = PRIM_CDR(v_2317562_25);
-Obj v_2317564_25 = PRIM_EQ(Nil, v_2317563_25);
-if (True == v_2317564_25) {
+Obj v_2316758_25 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317613_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317613_25) {
+Obj v_2317614_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317615_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317614_25);
+if (True == v_2317615_25) {
+Obj v_2317616_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317617_25 = PRIM_ISCONS(v_2317616_25);
+if (True == v_2317617_25) {
+Obj v_2317618_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317619_25 = PRIM_CAR(v_2317618_25);
+Obj v_a = v_2317619_25;
+Obj v_2317620_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317621_25 = PRIM_CDR(v_2317620_25);
+Obj v_2317622_25 = PRIM_ISCONS(v_2317621_25);
+if (True == v_2317622_25) {
+Obj v_2317623_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317624_25 = PRIM_CDR(v_2317623_25);
+Obj v_2317625_25 = PRIM_CAR(v_2317624_25);
+Obj v_b = v_2317625_25;
+Obj v_2317626_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317627_25 = PRIM_CDR(v_2317626_25);
+Obj v_2317628_25 = PRIM_CDR(v_2317627_25);
+Obj v_2317629_25 = PRIM_ISCONS(v_2317628_25);
+if (True == v_2317629_25) {
+Obj v_2317630_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317631_25 = PRIM_CDR(v_2317630_25);
+Obj v_2317632_25 = PRIM_CDR(v_2317631_25);
+Obj v_2317633_25 = PRIM_CAR(v_2317632_25);
+Obj v_c = v_2317633_25;
+Obj v_2317634_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317635_25 = PRIM_CDR(v_2317634_25);
+Obj v_2317636_25 = PRIM_CDR(v_2317635_25);
+Obj v_2317637_25 = PRIM_CDR(v_2317636_25);
+Obj v_2317638_25 = PRIM_EQ(Nil, v_2317637_25);
+if (True == v_2317638_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_a, makeNative(co->gc, 3, clofun52, 1, 3, v_b, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 3, clofun52, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316684_25);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316684_25);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316684_25);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316684_25);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316684_25);
+coraCall0(co, v_2316758_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316684_25);
+coraCall0(co, v_2316758_25);
 return;
 }
 }
@@ -5861,29 +5946,29 @@ case 0:
 Obj v_ra = R[1];
 R[1] = v_ra;
 saveCont(co, clofun52, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2317566_25= co->res;
-Obj v_2317565_25 = R[1];
+Obj v_2317640_25= co->res;
+Obj v_2317639_25 = R[1];
 Obj v_ra = R[2];
-Obj v_2317567_25 = makeCons(co->gc, v_2317566_25, Nil);
-Obj v_2317568_25 = makeCons(co->gc, v_2317565_25, v_2317567_25);
-Obj v_2317569_25 = makeCons(co->gc, v_ra, v_2317568_25);
-Obj v_2317570_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317569_25);
-coraReturn(co, v_2317570_25);
+Obj v_2317641_25 = makeCons(co->gc, v_2317640_25, Nil);
+Obj v_2317642_25 = makeCons(co->gc, v_2317639_25, v_2317641_25);
+Obj v_2317643_25 = makeCons(co->gc, v_ra, v_2317642_25);
+Obj v_2317644_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317643_25);
+coraReturn(co, v_2317644_25);
 return;
 }
 case 2:
 {
-Obj v_2317565_25= co->res;
+Obj v_2317639_25= co->res;
 Obj v_ra = R[1];
-R[1] = v_2317565_25;
+R[1] = v_2317639_25;
 R[2] = v_ra;
 saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
@@ -5893,57 +5978,57 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316685_25 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317517_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317517_25) {
-Obj v_2317518_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317519_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317518_25);
-if (True == v_2317519_25) {
-Obj v_2317520_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317521_25 = PRIM_ISCONS(v_2317520_25);
-if (True == v_2317521_25) {
-Obj v_2317522_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317523_25 = PRIM_CAR(v_2317522_25);
-Obj v_a = v_2317523_25;
-Obj v_2317524_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317525_25 = PRIM_CDR(v_2317524_25);
-Obj v_2317526_25 = PRIM_ISCONS(v_2317525_25);
-if (True == v_2317526_25) {
-Obj v_2317527_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317528_25 = PRIM_CDR(v_2317527_25);
-Obj v_2317529_25 = PRIM_CAR(v_2317528_25);
-Obj v_b = v_2317529_25;
-Obj v_2317530_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317531_25 = PRIM_CDR(v_2317530_25);
-Obj v_2317532_25 = PRIM_CDR(v_2317531_25);
-Obj v_2317533_25 = PRIM_EQ(Nil, v_2317532_25);
-if (True == v_2317533_25) {
+Obj v_2316759_25 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317591_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317591_25) {
+Obj v_2317592_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317593_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317592_25);
+if (True == v_2317593_25) {
+Obj v_2317594_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317595_25 = PRIM_ISCONS(v_2317594_25);
+if (True == v_2317595_25) {
+Obj v_2317596_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317597_25 = PRIM_CAR(v_2317596_25);
+Obj v_a = v_2317597_25;
+Obj v_2317598_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317599_25 = PRIM_CDR(v_2317598_25);
+Obj v_2317600_25 = PRIM_ISCONS(v_2317599_25);
+if (True == v_2317600_25) {
+Obj v_2317601_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317602_25 = PRIM_CDR(v_2317601_25);
+Obj v_2317603_25 = PRIM_CAR(v_2317602_25);
+Obj v_b = v_2317603_25;
+Obj v_2317604_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317605_25 = PRIM_CDR(v_2317604_25);
+Obj v_2317606_25 = PRIM_CDR(v_2317605_25);
+Obj v_2317607_25 = PRIM_EQ(Nil, v_2317606_25);
+if (True == v_2317607_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_a, makeNative(co->gc, 2, clofun50, 1, 2, v_b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 2, clofun50, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316685_25);
+coraCall0(co, v_2316759_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316685_25);
+coraCall0(co, v_2316759_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316685_25);
+coraCall0(co, v_2316759_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316685_25);
+coraCall0(co, v_2316759_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316685_25);
+coraCall0(co, v_2316759_25);
 return;
 }
 }
@@ -5955,26 +6040,26 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v_2317534_25 = primIsSymbol(v_ra);
-if (True == v_2317534_25) {
+Obj v_2317608_25 = primIsSymbol(v_ra);
+if (True == v_2317608_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = v_ra;
 saveCont(co, clofun50, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v_2317535_25= co->res;
+Obj v_2317609_25= co->res;
 Obj v_ra = R[1];
-Obj v_2317536_25 = makeCons(co->gc, v_2317535_25, Nil);
-Obj v_2317537_25 = makeCons(co->gc, v_ra, v_2317536_25);
-Obj v_2317538_25 = makeCons(co->gc, getBinding(co, packageID, 85).name, v_2317537_25);
-coraReturn(co, v_2317538_25);
+Obj v_2317610_25 = makeCons(co->gc, v_2317609_25, Nil);
+Obj v_2317611_25 = makeCons(co->gc, v_ra, v_2317610_25);
+Obj v_2317612_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317611_25);
+coraReturn(co, v_2317612_25);
 return;
 }
 }
@@ -5984,73 +6069,73 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316686_25 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317486_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317486_25) {
-Obj v_2317487_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317488_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317487_25);
-if (True == v_2317488_25) {
-Obj v_2317489_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317490_25 = PRIM_ISCONS(v_2317489_25);
-if (True == v_2317490_25) {
-Obj v_2317491_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317492_25 = PRIM_CAR(v_2317491_25);
-Obj v_a = v_2317492_25;
-Obj v_2317493_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317494_25 = PRIM_CDR(v_2317493_25);
-Obj v_2317495_25 = PRIM_ISCONS(v_2317494_25);
-if (True == v_2317495_25) {
-Obj v_2317496_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317497_25 = PRIM_CDR(v_2317496_25);
-Obj v_2317498_25 = PRIM_CAR(v_2317497_25);
-Obj v_b = v_2317498_25;
-Obj v_2317499_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317500_25 = PRIM_CDR(v_2317499_25);
-Obj v_2317501_25 = PRIM_CDR(v_2317500_25);
-Obj v_2317502_25 = PRIM_ISCONS(v_2317501_25);
-if (True == v_2317502_25) {
-Obj v_2317503_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317504_25 = PRIM_CDR(v_2317503_25);
-Obj v_2317505_25 = PRIM_CDR(v_2317504_25);
-Obj v_2317506_25 = PRIM_CAR(v_2317505_25);
-Obj v_c = v_2317506_25;
-Obj v_2317507_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317508_25 = PRIM_CDR(v_2317507_25);
-Obj v_2317509_25 = PRIM_CDR(v_2317508_25);
-Obj v_2317510_25 = PRIM_CDR(v_2317509_25);
-Obj v_2317511_25 = PRIM_EQ(Nil, v_2317510_25);
-if (True == v_2317511_25) {
+Obj v_2316760_25 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317560_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317560_25) {
+Obj v_2317561_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317562_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317561_25);
+if (True == v_2317562_25) {
+Obj v_2317563_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317564_25 = PRIM_ISCONS(v_2317563_25);
+if (True == v_2317564_25) {
+Obj v_2317565_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317566_25 = PRIM_CAR(v_2317565_25);
+Obj v_a = v_2317566_25;
+Obj v_2317567_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317568_25 = PRIM_CDR(v_2317567_25);
+Obj v_2317569_25 = PRIM_ISCONS(v_2317568_25);
+if (True == v_2317569_25) {
+Obj v_2317570_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317571_25 = PRIM_CDR(v_2317570_25);
+Obj v_2317572_25 = PRIM_CAR(v_2317571_25);
+Obj v_b = v_2317572_25;
+Obj v_2317573_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317574_25 = PRIM_CDR(v_2317573_25);
+Obj v_2317575_25 = PRIM_CDR(v_2317574_25);
+Obj v_2317576_25 = PRIM_ISCONS(v_2317575_25);
+if (True == v_2317576_25) {
+Obj v_2317577_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317578_25 = PRIM_CDR(v_2317577_25);
+Obj v_2317579_25 = PRIM_CDR(v_2317578_25);
+Obj v_2317580_25 = PRIM_CAR(v_2317579_25);
+Obj v_c = v_2317580_25;
+Obj v_2317581_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317582_25 = PRIM_CDR(v_2317581_25);
+Obj v_2317583_25 = PRIM_CDR(v_2317582_25);
+Obj v_2317584_25 = PRIM_CDR(v_2317583_25);
+Obj v_2317585_25 = PRIM_EQ(Nil, v_2317584_25);
+if (True == v_2317585_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_b, makeNative(co->gc, 2, clofun48, 1, 3, v_a, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_b, makeNative(co->gc, 2, clofun48, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316686_25);
+coraCall0(co, v_2316760_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316686_25);
+coraCall0(co, v_2316760_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316686_25);
+coraCall0(co, v_2316760_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316686_25);
+coraCall0(co, v_2316760_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316686_25);
+coraCall0(co, v_2316760_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316686_25);
+coraCall0(co, v_2316760_25);
 return;
 }
 }
@@ -6064,18 +6149,18 @@ case 0:
 Obj v_rb = R[1];
 R[1] = v_rb;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2317512_25= co->res;
+Obj v_2317586_25= co->res;
 Obj v_rb = R[1];
-Obj v_2317513_25 = makeCons(co->gc, v_2317512_25, Nil);
-Obj v_2317514_25 = makeCons(co->gc, v_rb, v_2317513_25);
-Obj v_2317515_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317514_25);
-Obj v_2317516_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317515_25);
-coraReturn(co, v_2317516_25);
+Obj v_2317587_25 = makeCons(co->gc, v_2317586_25, Nil);
+Obj v_2317588_25 = makeCons(co->gc, v_rb, v_2317587_25);
+Obj v_2317589_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317588_25);
+Obj v_2317590_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317589_25);
+coraReturn(co, v_2317590_25);
 return;
 }
 }
@@ -6085,114 +6170,114 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316687_25 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317442_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317442_25) {
-Obj v_2317443_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317444_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317443_25);
-if (True == v_2317444_25) {
-Obj v_2317445_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317446_25 = PRIM_ISCONS(v_2317445_25);
-if (True == v_2317446_25) {
-Obj v_2317447_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317448_25 = PRIM_CAR(v_2317447_25);
-Obj v_2317449_25 = PRIM_ISCONS(v_2317448_25);
-if (True == v_2317449_25) {
-Obj v_2317450_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317451_25 = PRIM_CAR(v_2317450_25);
-Obj v_2317452_25 = PRIM_CAR(v_2317451_25);
-Obj v_2317453_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317452_25);
-if (True == v_2317453_25) {
-Obj v_2317454_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317455_25 = PRIM_CAR(v_2317454_25);
-Obj v_2317456_25 = PRIM_CDR(v_2317455_25);
-Obj v_2317457_25 = PRIM_ISCONS(v_2317456_25);
-if (True == v_2317457_25) {
-Obj v_2317458_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317459_25 = PRIM_CAR(v_2317458_25);
-Obj v_2317460_25 = PRIM_CDR(v_2317459_25);
-Obj v_2317461_25 = PRIM_CAR(v_2317460_25);
-Obj v_args = v_2317461_25;
-Obj v_2317462_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317463_25 = PRIM_CAR(v_2317462_25);
-Obj v_2317464_25 = PRIM_CDR(v_2317463_25);
-Obj v_2317465_25 = PRIM_CDR(v_2317464_25);
-Obj v_2317466_25 = PRIM_ISCONS(v_2317465_25);
-if (True == v_2317466_25) {
-Obj v_2317467_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317468_25 = PRIM_CAR(v_2317467_25);
-Obj v_2317469_25 = PRIM_CDR(v_2317468_25);
-Obj v_2317470_25 = PRIM_CDR(v_2317469_25);
-Obj v_2317471_25 = PRIM_CAR(v_2317470_25);
-Obj v_body = v_2317471_25;
-Obj v_2317472_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317473_25 = PRIM_CAR(v_2317472_25);
-Obj v_2317474_25 = PRIM_CDR(v_2317473_25);
-Obj v_2317475_25 = PRIM_CDR(v_2317474_25);
-Obj v_2317476_25 = PRIM_CDR(v_2317475_25);
-Obj v_2317477_25 = PRIM_EQ(Nil, v_2317476_25);
-if (True == v_2317477_25) {
-Obj v_2317478_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317479_25 = PRIM_CDR(v_2317478_25);
-Obj v_frees = v_2317479_25;
+Obj v_2316761_25 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317516_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317516_25) {
+Obj v_2317517_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317518_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317517_25);
+if (True == v_2317518_25) {
+Obj v_2317519_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317520_25 = PRIM_ISCONS(v_2317519_25);
+if (True == v_2317520_25) {
+Obj v_2317521_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317522_25 = PRIM_CAR(v_2317521_25);
+Obj v_2317523_25 = PRIM_ISCONS(v_2317522_25);
+if (True == v_2317523_25) {
+Obj v_2317524_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317525_25 = PRIM_CAR(v_2317524_25);
+Obj v_2317526_25 = PRIM_CAR(v_2317525_25);
+Obj v_2317527_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317526_25);
+if (True == v_2317527_25) {
+Obj v_2317528_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317529_25 = PRIM_CAR(v_2317528_25);
+Obj v_2317530_25 = PRIM_CDR(v_2317529_25);
+Obj v_2317531_25 = PRIM_ISCONS(v_2317530_25);
+if (True == v_2317531_25) {
+Obj v_2317532_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317533_25 = PRIM_CAR(v_2317532_25);
+Obj v_2317534_25 = PRIM_CDR(v_2317533_25);
+Obj v_2317535_25 = PRIM_CAR(v_2317534_25);
+Obj v_args = v_2317535_25;
+Obj v_2317536_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317537_25 = PRIM_CAR(v_2317536_25);
+Obj v_2317538_25 = PRIM_CDR(v_2317537_25);
+Obj v_2317539_25 = PRIM_CDR(v_2317538_25);
+Obj v_2317540_25 = PRIM_ISCONS(v_2317539_25);
+if (True == v_2317540_25) {
+Obj v_2317541_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317542_25 = PRIM_CAR(v_2317541_25);
+Obj v_2317543_25 = PRIM_CDR(v_2317542_25);
+Obj v_2317544_25 = PRIM_CDR(v_2317543_25);
+Obj v_2317545_25 = PRIM_CAR(v_2317544_25);
+Obj v_body = v_2317545_25;
+Obj v_2317546_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317547_25 = PRIM_CAR(v_2317546_25);
+Obj v_2317548_25 = PRIM_CDR(v_2317547_25);
+Obj v_2317549_25 = PRIM_CDR(v_2317548_25);
+Obj v_2317550_25 = PRIM_CDR(v_2317549_25);
+Obj v_2317551_25 = PRIM_EQ(Nil, v_2317550_25);
+if (True == v_2317551_25) {
+Obj v_2317552_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317553_25 = PRIM_CDR(v_2317552_25);
+Obj v_frees = v_2317553_25;
 R[1] = v_args;
 R[2] = v_frees;
 saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_body, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_body, globalRef(co, getBinding(co, packageID, 71)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316687_25);
+coraCall0(co, v_2316761_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317480_25= co->res;
+Obj v_2317554_25= co->res;
 Obj v_args = R[1];
 Obj v_frees = R[2];
-Obj v_2317481_25 = makeCons(co->gc, v_2317480_25, Nil);
-Obj v_2317482_25 = makeCons(co->gc, v_args, v_2317481_25);
-Obj v_2317483_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317482_25);
-Obj v_2317484_25 = makeCons(co->gc, v_2317483_25, v_frees);
-Obj v_2317485_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317484_25);
+Obj v_2317555_25 = makeCons(co->gc, v_2317554_25, Nil);
+Obj v_2317556_25 = makeCons(co->gc, v_args, v_2317555_25);
+Obj v_2317557_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317556_25);
+Obj v_2317558_25 = makeCons(co->gc, v_2317557_25, v_frees);
+Obj v_2317559_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317558_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v_2317485_25);
+coraCall1(co, closureRef(R[0], 1), v_2317559_25);
 return;
 }
 }
@@ -6202,19 +6287,19 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317438_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317438_25) {
-Obj v_2317439_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317439_25;
-Obj v_2317440_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317440_25;
-Obj v_2317441_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317512_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317512_25) {
+Obj v_2317513_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317513_25;
+Obj v_2317514_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317514_25;
+Obj v_2317515_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v_2317441_25, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), v_2317515_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -6226,9 +6311,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2317434_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2317435_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2317434_25);
-coraReturn(co, v_2317435_25);
+Obj v_2317508_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2317509_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317508_25);
+coraReturn(co, v_2317509_25);
 return;
 }
 }
@@ -6238,151 +6323,151 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316673_25 = R[1];
-Obj v_2316674_25 = R[2];
-R[1] = v_2316674_25;
-R[2] = v_2316673_25;
+Obj v_2316747_25 = R[1];
+Obj v_2316748_25 = R[2];
+R[1] = v_2316748_25;
+R[2] = v_2316747_25;
 saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316674_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316748_25);
 return;
 }
 case 1:
 {
-Obj v_2317363_25= co->res;
-Obj v_2316674_25 = R[1];
-Obj v_pos = v_2317363_25;
-Obj v_2317364_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
-if (True == v_2317364_25) {
-coraReturn(co, v_2316674_25);
+Obj v_2317437_25= co->res;
+Obj v_2316748_25 = R[1];
+Obj v_pos = v_2317437_25;
+Obj v_2317438_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2317438_25) {
+coraReturn(co, v_2316748_25);
 return;
 } else {
-Obj v_2317365_25 = makeCons(co->gc, v_pos, Nil);
-Obj v_2317366_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2317365_25);
-coraReturn(co, v_2317366_25);
+Obj v_2317439_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2317440_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317439_25);
+coraReturn(co, v_2317440_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2317430_25= co->res;
-Obj v_2317428_25 = R[1];
-Obj v_2317431_25 = makeCons(co->gc, v_2317428_25, v_2317430_25);
-Obj v_2317432_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317431_25);
-coraReturn(co, v_2317432_25);
+Obj v_2317504_25= co->res;
+Obj v_2317502_25 = R[1];
+Obj v_2317505_25 = makeCons(co->gc, v_2317502_25, v_2317504_25);
+Obj v_2317506_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317505_25);
+coraReturn(co, v_2317506_25);
 return;
 }
 case 3:
 {
-Obj v_2317429_25= co->res;
+Obj v_2317503_25= co->res;
 Obj v_fvs1 = R[1];
-Obj v_2317428_25 = R[2];
-R[1] = v_2317428_25;
+Obj v_2317502_25 = R[2];
+R[1] = v_2317502_25;
 saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317429_25, v_fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317503_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2317425_25= co->res;
+Obj v_2317499_25= co->res;
 Obj v_args = R[1];
-Obj v_2316673_25 = R[2];
+Obj v_2316747_25 = R[2];
 Obj v_fvs1 = R[3];
-Obj v_2317426_25 = makeCons(co->gc, v_2317425_25, Nil);
-Obj v_2317427_25 = makeCons(co->gc, v_args, v_2317426_25);
-Obj v_2317428_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317427_25);
+Obj v_2317500_25 = makeCons(co->gc, v_2317499_25, Nil);
+Obj v_2317501_25 = makeCons(co->gc, v_args, v_2317500_25);
+Obj v_2317502_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317501_25);
 R[1] = v_fvs1;
-R[2] = v_2317428_25;
+R[2] = v_2317502_25;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2316673_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2316747_25);
 return;
 }
 case 5:
 {
-Obj v_2317424_25= co->res;
+Obj v_2317498_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2316673_25 = R[3];
-Obj v_fvs1 = v_2317424_25;
+Obj v_2316747_25 = R[3];
+Obj v_fvs1 = v_2317498_25;
 R[1] = v_args;
-R[2] = v_2316673_25;
+R[2] = v_2316747_25;
 R[3] = v_fvs1;
 saveCont(co, clofun44, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v_fvs1, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), v_fvs1, v_body);
 return;
 }
 case 6:
 {
-Obj v_2317361_25= co->res;
-Obj v_2316674_25 = R[1];
-Obj v_2316673_25 = R[2];
-if (True == v_2317361_25) {
-coraReturn(co, v_2316674_25);
+Obj v_2317435_25= co->res;
+Obj v_2316748_25 = R[1];
+Obj v_2316747_25 = R[2];
+if (True == v_2317435_25) {
+coraReturn(co, v_2316748_25);
 return;
 } else {
-Obj v_2317362_25 = primIsSymbol(v_2316674_25);
-if (True == v_2317362_25) {
-R[1] = v_2316674_25;
+Obj v_2317436_25 = primIsSymbol(v_2316748_25);
+if (True == v_2317436_25) {
+R[1] = v_2316748_25;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_2316674_25, v_2316673_25);
-return;
-} else {
-Obj v_2316677_25 = makeNative(co->gc, 3, clofun43, 0, 2, v_2316674_25, v_2316673_25);
-Obj v_2317404_25 = PRIM_ISCONS(v_2316674_25);
-if (True == v_2317404_25) {
-Obj v_2317405_25 = PRIM_CAR(v_2316674_25);
-Obj v_2317406_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317405_25);
-if (True == v_2317406_25) {
-Obj v_2317407_25 = PRIM_CDR(v_2316674_25);
-Obj v_2317408_25 = PRIM_ISCONS(v_2317407_25);
-if (True == v_2317408_25) {
-Obj v_2317409_25 = PRIM_CDR(v_2316674_25);
-Obj v_2317410_25 = PRIM_CAR(v_2317409_25);
-Obj v_args = v_2317410_25;
-Obj v_2317411_25 = PRIM_CDR(v_2316674_25);
-Obj v_2317412_25 = PRIM_CDR(v_2317411_25);
-Obj v_2317413_25 = PRIM_ISCONS(v_2317412_25);
-if (True == v_2317413_25) {
-Obj v_2317414_25 = PRIM_CDR(v_2316674_25);
-Obj v_2317415_25 = PRIM_CDR(v_2317414_25);
-Obj v_2317416_25 = PRIM_CAR(v_2317415_25);
-Obj v_body = v_2317416_25;
-Obj v_2317417_25 = PRIM_CDR(v_2316674_25);
-Obj v_2317418_25 = PRIM_CDR(v_2317417_25);
-Obj v_2317419_25 = PRIM_CDR(v_2317418_25);
-Obj v_2317420_25 = PRIM_EQ(Nil, v_2317419_25);
-if (True == v_2317420_25) {
-Obj v_2317421_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2317422_25 = makeCons(co->gc, v_args, v_2317421_25);
-Obj v_2317423_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317422_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_2316748_25, v_2316747_25);
+return;
+} else {
+Obj v_2316751_25 = makeNative(co->gc, 3, clofun43, 0, 2, v_2316748_25, v_2316747_25);
+Obj v_2317478_25 = PRIM_ISCONS(v_2316748_25);
+if (True == v_2317478_25) {
+Obj v_2317479_25 = PRIM_CAR(v_2316748_25);
+Obj v_2317480_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317479_25);
+if (True == v_2317480_25) {
+Obj v_2317481_25 = PRIM_CDR(v_2316748_25);
+Obj v_2317482_25 = PRIM_ISCONS(v_2317481_25);
+if (True == v_2317482_25) {
+Obj v_2317483_25 = PRIM_CDR(v_2316748_25);
+Obj v_2317484_25 = PRIM_CAR(v_2317483_25);
+Obj v_args = v_2317484_25;
+Obj v_2317485_25 = PRIM_CDR(v_2316748_25);
+Obj v_2317486_25 = PRIM_CDR(v_2317485_25);
+Obj v_2317487_25 = PRIM_ISCONS(v_2317486_25);
+if (True == v_2317487_25) {
+Obj v_2317488_25 = PRIM_CDR(v_2316748_25);
+Obj v_2317489_25 = PRIM_CDR(v_2317488_25);
+Obj v_2317490_25 = PRIM_CAR(v_2317489_25);
+Obj v_body = v_2317490_25;
+Obj v_2317491_25 = PRIM_CDR(v_2316748_25);
+Obj v_2317492_25 = PRIM_CDR(v_2317491_25);
+Obj v_2317493_25 = PRIM_CDR(v_2317492_25);
+Obj v_2317494_25 = PRIM_EQ(Nil, v_2317493_25);
+if (True == v_2317494_25) {
+Obj v_2317495_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2317496_25 = makeCons(co->gc, v_args, v_2317495_25);
+Obj v_2317497_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317496_25);
 R[1] = v_body;
 R[2] = v_args;
-R[3] = v_2316673_25;
+R[3] = v_2316747_25;
 saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317423_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317497_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316677_25);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316677_25);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316677_25);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316677_25);
+coraCall0(co, v_2316751_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316677_25);
+coraCall0(co, v_2316751_25);
 return;
 }
 }
@@ -6395,99 +6480,99 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316678_25 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317372_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317372_25) {
-Obj v_2317373_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317374_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317373_25);
-if (True == v_2317374_25) {
-Obj v_2317375_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317376_25 = PRIM_ISCONS(v_2317375_25);
-if (True == v_2317376_25) {
-Obj v_2317377_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317378_25 = PRIM_CAR(v_2317377_25);
-Obj v_a = v_2317378_25;
-Obj v_2317379_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317380_25 = PRIM_CDR(v_2317379_25);
-Obj v_2317381_25 = PRIM_ISCONS(v_2317380_25);
-if (True == v_2317381_25) {
-Obj v_2317382_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317383_25 = PRIM_CDR(v_2317382_25);
-Obj v_2317384_25 = PRIM_CAR(v_2317383_25);
-Obj v_b = v_2317384_25;
-Obj v_2317385_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317386_25 = PRIM_CDR(v_2317385_25);
-Obj v_2317387_25 = PRIM_CDR(v_2317386_25);
-Obj v_2317388_25 = PRIM_ISCONS(v_2317387_25);
-if (True == v_2317388_25) {
-Obj v_2317389_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317390_25 = PRIM_CDR(v_2317389_25);
-Obj v_2317391_25 = PRIM_CDR(v_2317390_25);
-Obj v_2317392_25 = PRIM_CAR(v_2317391_25);
-Obj v_c = v_2317392_25;
-Obj v_2317393_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317394_25 = PRIM_CDR(v_2317393_25);
-Obj v_2317395_25 = PRIM_CDR(v_2317394_25);
-Obj v_2317396_25 = PRIM_CDR(v_2317395_25);
-Obj v_2317397_25 = PRIM_EQ(Nil, v_2317396_25);
-if (True == v_2317397_25) {
+Obj v_2316752_25 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317446_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317446_25) {
+Obj v_2317447_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317448_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317447_25);
+if (True == v_2317448_25) {
+Obj v_2317449_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317450_25 = PRIM_ISCONS(v_2317449_25);
+if (True == v_2317450_25) {
+Obj v_2317451_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317452_25 = PRIM_CAR(v_2317451_25);
+Obj v_a = v_2317452_25;
+Obj v_2317453_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317454_25 = PRIM_CDR(v_2317453_25);
+Obj v_2317455_25 = PRIM_ISCONS(v_2317454_25);
+if (True == v_2317455_25) {
+Obj v_2317456_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317457_25 = PRIM_CDR(v_2317456_25);
+Obj v_2317458_25 = PRIM_CAR(v_2317457_25);
+Obj v_b = v_2317458_25;
+Obj v_2317459_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317460_25 = PRIM_CDR(v_2317459_25);
+Obj v_2317461_25 = PRIM_CDR(v_2317460_25);
+Obj v_2317462_25 = PRIM_ISCONS(v_2317461_25);
+if (True == v_2317462_25) {
+Obj v_2317463_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317464_25 = PRIM_CDR(v_2317463_25);
+Obj v_2317465_25 = PRIM_CDR(v_2317464_25);
+Obj v_2317466_25 = PRIM_CAR(v_2317465_25);
+Obj v_c = v_2317466_25;
+Obj v_2317467_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317468_25 = PRIM_CDR(v_2317467_25);
+Obj v_2317469_25 = PRIM_CDR(v_2317468_25);
+Obj v_2317470_25 = PRIM_CDR(v_2317469_25);
+Obj v_2317471_25 = PRIM_EQ(Nil, v_2317470_25);
+if (True == v_2317471_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun43, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v_b);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316678_25);
+coraCall0(co, v_2316752_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316678_25);
+coraCall0(co, v_2316752_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316678_25);
+coraCall0(co, v_2316752_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316678_25);
+coraCall0(co, v_2316752_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316678_25);
+coraCall0(co, v_2316752_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316678_25);
+coraCall0(co, v_2316752_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317399_25= co->res;
-Obj v_2317398_25 = R[1];
+Obj v_2317473_25= co->res;
+Obj v_2317472_25 = R[1];
 Obj v_a = R[2];
-Obj v_2317400_25 = makeCons(co->gc, v_2317399_25, Nil);
-Obj v_2317401_25 = makeCons(co->gc, v_2317398_25, v_2317400_25);
-Obj v_2317402_25 = makeCons(co->gc, v_a, v_2317401_25);
-Obj v_2317403_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317402_25);
-coraReturn(co, v_2317403_25);
+Obj v_2317474_25 = makeCons(co->gc, v_2317473_25, Nil);
+Obj v_2317475_25 = makeCons(co->gc, v_2317472_25, v_2317474_25);
+Obj v_2317476_25 = makeCons(co->gc, v_a, v_2317475_25);
+Obj v_2317477_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317476_25);
+coraReturn(co, v_2317477_25);
 return;
 }
 case 2:
 {
-Obj v_2317398_25= co->res;
+Obj v_2317472_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-R[1] = v_2317398_25;
+R[1] = v_2317472_25;
 R[2] = v_a;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v_c);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), v_c);
 return;
 }
 }
@@ -6497,31 +6582,31 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317367_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317367_25) {
-Obj v_2317368_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317368_25;
-Obj v_2317369_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317369_25;
+Obj v_2317441_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317441_25) {
+Obj v_2317442_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317442_25;
+Obj v_2317443_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317443_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317370_25= co->res;
+Obj v_2317444_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2317371_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317445_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317370_25, v_2317371_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317444_25, v_2317445_25);
 return;
 }
 }
@@ -6531,86 +6616,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316660_25 = R[1];
-R[1] = v_2316660_25;
+Obj v_2316734_25 = R[1];
+R[1] = v_2316734_25;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v_2316660_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316734_25);
 return;
 }
 case 1:
 {
-Obj v_2317359_25= co->res;
+Obj v_2317433_25= co->res;
 Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317359_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317433_25, v_args);
 return;
 }
 case 2:
 {
-Obj v_2317186_25= co->res;
-Obj v_2316660_25 = R[1];
-if (True == v_2317186_25) {
+Obj v_2317260_25= co->res;
+Obj v_2316734_25 = R[1];
+if (True == v_2317260_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317187_25 = primIsSymbol(v_2316660_25);
-if (True == v_2317187_25) {
-Obj v_2317188_25 = makeCons(co->gc, v_2316660_25, Nil);
-coraReturn(co, v_2317188_25);
+Obj v_2317261_25 = primIsSymbol(v_2316734_25);
+if (True == v_2317261_25) {
+Obj v_2317262_25 = makeCons(co->gc, v_2316734_25, Nil);
+coraReturn(co, v_2317262_25);
 return;
 } else {
-Obj v_2316663_25 = makeNative(co->gc, 1, clofun40, 0, 1, v_2316660_25);
-Obj v_2317342_25 = PRIM_ISCONS(v_2316660_25);
-if (True == v_2317342_25) {
-Obj v_2317343_25 = PRIM_CAR(v_2316660_25);
-Obj v_2317344_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317343_25);
-if (True == v_2317344_25) {
-Obj v_2317345_25 = PRIM_CDR(v_2316660_25);
-Obj v_2317346_25 = PRIM_ISCONS(v_2317345_25);
-if (True == v_2317346_25) {
-Obj v_2317347_25 = PRIM_CDR(v_2316660_25);
-Obj v_2317348_25 = PRIM_CAR(v_2317347_25);
-Obj v_args = v_2317348_25;
-Obj v_2317349_25 = PRIM_CDR(v_2316660_25);
-Obj v_2317350_25 = PRIM_CDR(v_2317349_25);
-Obj v_2317351_25 = PRIM_ISCONS(v_2317350_25);
-if (True == v_2317351_25) {
-Obj v_2317352_25 = PRIM_CDR(v_2316660_25);
-Obj v_2317353_25 = PRIM_CDR(v_2317352_25);
-Obj v_2317354_25 = PRIM_CAR(v_2317353_25);
-Obj v_body = v_2317354_25;
-Obj v_2317355_25 = PRIM_CDR(v_2316660_25);
-Obj v_2317356_25 = PRIM_CDR(v_2317355_25);
-Obj v_2317357_25 = PRIM_CDR(v_2317356_25);
-Obj v_2317358_25 = PRIM_EQ(Nil, v_2317357_25);
-if (True == v_2317358_25) {
+Obj v_2316737_25 = makeNative(co->gc, 1, clofun40, 0, 1, v_2316734_25);
+Obj v_2317416_25 = PRIM_ISCONS(v_2316734_25);
+if (True == v_2317416_25) {
+Obj v_2317417_25 = PRIM_CAR(v_2316734_25);
+Obj v_2317418_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317417_25);
+if (True == v_2317418_25) {
+Obj v_2317419_25 = PRIM_CDR(v_2316734_25);
+Obj v_2317420_25 = PRIM_ISCONS(v_2317419_25);
+if (True == v_2317420_25) {
+Obj v_2317421_25 = PRIM_CDR(v_2316734_25);
+Obj v_2317422_25 = PRIM_CAR(v_2317421_25);
+Obj v_args = v_2317422_25;
+Obj v_2317423_25 = PRIM_CDR(v_2316734_25);
+Obj v_2317424_25 = PRIM_CDR(v_2317423_25);
+Obj v_2317425_25 = PRIM_ISCONS(v_2317424_25);
+if (True == v_2317425_25) {
+Obj v_2317426_25 = PRIM_CDR(v_2316734_25);
+Obj v_2317427_25 = PRIM_CDR(v_2317426_25);
+Obj v_2317428_25 = PRIM_CAR(v_2317427_25);
+Obj v_body = v_2317428_25;
+Obj v_2317429_25 = PRIM_CDR(v_2316734_25);
+Obj v_2317430_25 = PRIM_CDR(v_2317429_25);
+Obj v_2317431_25 = PRIM_CDR(v_2317430_25);
+Obj v_2317432_25 = PRIM_EQ(Nil, v_2317431_25);
+if (True == v_2317432_25) {
 R[1] = v_args;
 saveCont(co, clofun41, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316663_25);
+coraCall0(co, v_2316737_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316663_25);
+coraCall0(co, v_2316737_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316663_25);
+coraCall0(co, v_2316737_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316663_25);
+coraCall0(co, v_2316737_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316663_25);
+coraCall0(co, v_2316737_25);
 return;
 }
 }
@@ -6623,84 +6708,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316664_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v_2317312_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317312_25) {
-Obj v_2317313_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317314_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317313_25);
-if (True == v_2317314_25) {
-Obj v_2317315_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317316_25 = PRIM_ISCONS(v_2317315_25);
-if (True == v_2317316_25) {
-Obj v_2317317_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317318_25 = PRIM_CAR(v_2317317_25);
-Obj v_x = v_2317318_25;
-Obj v_2317319_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317320_25 = PRIM_CDR(v_2317319_25);
-Obj v_2317321_25 = PRIM_ISCONS(v_2317320_25);
-if (True == v_2317321_25) {
-Obj v_2317322_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317323_25 = PRIM_CDR(v_2317322_25);
-Obj v_2317324_25 = PRIM_CAR(v_2317323_25);
-Obj v_y = v_2317324_25;
-Obj v_2317325_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317326_25 = PRIM_CDR(v_2317325_25);
-Obj v_2317327_25 = PRIM_CDR(v_2317326_25);
-Obj v_2317328_25 = PRIM_ISCONS(v_2317327_25);
-if (True == v_2317328_25) {
-Obj v_2317329_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317330_25 = PRIM_CDR(v_2317329_25);
-Obj v_2317331_25 = PRIM_CDR(v_2317330_25);
-Obj v_2317332_25 = PRIM_CAR(v_2317331_25);
-Obj v_z = v_2317332_25;
-Obj v_2317333_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317334_25 = PRIM_CDR(v_2317333_25);
-Obj v_2317335_25 = PRIM_CDR(v_2317334_25);
-Obj v_2317336_25 = PRIM_CDR(v_2317335_25);
-Obj v_2317337_25 = PRIM_EQ(Nil, v_2317336_25);
-if (True == v_2317337_25) {
-Obj v_2317338_25 = makeCons(co->gc, v_z, Nil);
-Obj v_2317339_25 = makeCons(co->gc, v_y, v_2317338_25);
-Obj v_2317340_25 = makeCons(co->gc, v_x, v_2317339_25);
+Obj v_2316738_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v_2317386_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317386_25) {
+Obj v_2317387_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317388_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317387_25);
+if (True == v_2317388_25) {
+Obj v_2317389_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317390_25 = PRIM_ISCONS(v_2317389_25);
+if (True == v_2317390_25) {
+Obj v_2317391_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317392_25 = PRIM_CAR(v_2317391_25);
+Obj v_x = v_2317392_25;
+Obj v_2317393_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317394_25 = PRIM_CDR(v_2317393_25);
+Obj v_2317395_25 = PRIM_ISCONS(v_2317394_25);
+if (True == v_2317395_25) {
+Obj v_2317396_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317397_25 = PRIM_CDR(v_2317396_25);
+Obj v_2317398_25 = PRIM_CAR(v_2317397_25);
+Obj v_y = v_2317398_25;
+Obj v_2317399_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317400_25 = PRIM_CDR(v_2317399_25);
+Obj v_2317401_25 = PRIM_CDR(v_2317400_25);
+Obj v_2317402_25 = PRIM_ISCONS(v_2317401_25);
+if (True == v_2317402_25) {
+Obj v_2317403_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317404_25 = PRIM_CDR(v_2317403_25);
+Obj v_2317405_25 = PRIM_CDR(v_2317404_25);
+Obj v_2317406_25 = PRIM_CAR(v_2317405_25);
+Obj v_z = v_2317406_25;
+Obj v_2317407_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317408_25 = PRIM_CDR(v_2317407_25);
+Obj v_2317409_25 = PRIM_CDR(v_2317408_25);
+Obj v_2317410_25 = PRIM_CDR(v_2317409_25);
+Obj v_2317411_25 = PRIM_EQ(Nil, v_2317410_25);
+if (True == v_2317411_25) {
+Obj v_2317412_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2317413_25 = makeCons(co->gc, v_y, v_2317412_25);
+Obj v_2317414_25 = makeCons(co->gc, v_x, v_2317413_25);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317340_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317414_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316664_25);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316664_25);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316664_25);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316664_25);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316664_25);
+coraCall0(co, v_2316738_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316664_25);
+coraCall0(co, v_2316738_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317341_25= co->res;
+Obj v_2317415_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317341_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317415_25);
 return;
 }
 }
@@ -6710,67 +6795,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316665_25 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v_2317292_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317292_25) {
-Obj v_2317293_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317294_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317293_25);
-if (True == v_2317294_25) {
-Obj v_2317295_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317296_25 = PRIM_ISCONS(v_2317295_25);
-if (True == v_2317296_25) {
-Obj v_2317297_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317298_25 = PRIM_CAR(v_2317297_25);
-Obj v_x = v_2317298_25;
-Obj v_2317299_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317300_25 = PRIM_CDR(v_2317299_25);
-Obj v_2317301_25 = PRIM_ISCONS(v_2317300_25);
-if (True == v_2317301_25) {
-Obj v_2317302_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317303_25 = PRIM_CDR(v_2317302_25);
-Obj v_2317304_25 = PRIM_CAR(v_2317303_25);
-Obj v_y = v_2317304_25;
-Obj v_2317305_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317306_25 = PRIM_CDR(v_2317305_25);
-Obj v_2317307_25 = PRIM_CDR(v_2317306_25);
-Obj v_2317308_25 = PRIM_EQ(Nil, v_2317307_25);
-if (True == v_2317308_25) {
-Obj v_2317309_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2317310_25 = makeCons(co->gc, v_x, v_2317309_25);
+Obj v_2316739_25 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v_2317366_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317366_25) {
+Obj v_2317367_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317368_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317367_25);
+if (True == v_2317368_25) {
+Obj v_2317369_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317370_25 = PRIM_ISCONS(v_2317369_25);
+if (True == v_2317370_25) {
+Obj v_2317371_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317372_25 = PRIM_CAR(v_2317371_25);
+Obj v_x = v_2317372_25;
+Obj v_2317373_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317374_25 = PRIM_CDR(v_2317373_25);
+Obj v_2317375_25 = PRIM_ISCONS(v_2317374_25);
+if (True == v_2317375_25) {
+Obj v_2317376_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317377_25 = PRIM_CDR(v_2317376_25);
+Obj v_2317378_25 = PRIM_CAR(v_2317377_25);
+Obj v_y = v_2317378_25;
+Obj v_2317379_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317380_25 = PRIM_CDR(v_2317379_25);
+Obj v_2317381_25 = PRIM_CDR(v_2317380_25);
+Obj v_2317382_25 = PRIM_EQ(Nil, v_2317381_25);
+if (True == v_2317382_25) {
+Obj v_2317383_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2317384_25 = makeCons(co->gc, v_x, v_2317383_25);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317310_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317384_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316665_25);
+coraCall0(co, v_2316739_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316665_25);
+coraCall0(co, v_2316739_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316665_25);
+coraCall0(co, v_2316739_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316665_25);
+coraCall0(co, v_2316739_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316665_25);
+coraCall0(co, v_2316739_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317311_25= co->res;
+Obj v_2317385_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317311_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317385_25);
 return;
 }
 }
@@ -6780,106 +6865,106 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316666_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v_2317262_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317262_25) {
-Obj v_2317263_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317264_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317263_25);
-if (True == v_2317264_25) {
-Obj v_2317265_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317266_25 = PRIM_ISCONS(v_2317265_25);
-if (True == v_2317266_25) {
-Obj v_2317267_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317268_25 = PRIM_CAR(v_2317267_25);
-Obj v_a = v_2317268_25;
-Obj v_2317269_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317270_25 = PRIM_CDR(v_2317269_25);
-Obj v_2317271_25 = PRIM_ISCONS(v_2317270_25);
-if (True == v_2317271_25) {
-Obj v_2317272_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317273_25 = PRIM_CDR(v_2317272_25);
-Obj v_2317274_25 = PRIM_CAR(v_2317273_25);
-Obj v_b = v_2317274_25;
-Obj v_2317275_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317276_25 = PRIM_CDR(v_2317275_25);
-Obj v_2317277_25 = PRIM_CDR(v_2317276_25);
-Obj v_2317278_25 = PRIM_ISCONS(v_2317277_25);
-if (True == v_2317278_25) {
-Obj v_2317279_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317280_25 = PRIM_CDR(v_2317279_25);
-Obj v_2317281_25 = PRIM_CDR(v_2317280_25);
-Obj v_2317282_25 = PRIM_CAR(v_2317281_25);
-Obj v_c = v_2317282_25;
-Obj v_2317283_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317284_25 = PRIM_CDR(v_2317283_25);
-Obj v_2317285_25 = PRIM_CDR(v_2317284_25);
-Obj v_2317286_25 = PRIM_CDR(v_2317285_25);
-Obj v_2317287_25 = PRIM_EQ(Nil, v_2317286_25);
-if (True == v_2317287_25) {
+Obj v_2316740_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2317336_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317336_25) {
+Obj v_2317337_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317338_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317337_25);
+if (True == v_2317338_25) {
+Obj v_2317339_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317340_25 = PRIM_ISCONS(v_2317339_25);
+if (True == v_2317340_25) {
+Obj v_2317341_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317342_25 = PRIM_CAR(v_2317341_25);
+Obj v_a = v_2317342_25;
+Obj v_2317343_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317344_25 = PRIM_CDR(v_2317343_25);
+Obj v_2317345_25 = PRIM_ISCONS(v_2317344_25);
+if (True == v_2317345_25) {
+Obj v_2317346_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317347_25 = PRIM_CDR(v_2317346_25);
+Obj v_2317348_25 = PRIM_CAR(v_2317347_25);
+Obj v_b = v_2317348_25;
+Obj v_2317349_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317350_25 = PRIM_CDR(v_2317349_25);
+Obj v_2317351_25 = PRIM_CDR(v_2317350_25);
+Obj v_2317352_25 = PRIM_ISCONS(v_2317351_25);
+if (True == v_2317352_25) {
+Obj v_2317353_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317354_25 = PRIM_CDR(v_2317353_25);
+Obj v_2317355_25 = PRIM_CDR(v_2317354_25);
+Obj v_2317356_25 = PRIM_CAR(v_2317355_25);
+Obj v_c = v_2317356_25;
+Obj v_2317357_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317358_25 = PRIM_CDR(v_2317357_25);
+Obj v_2317359_25 = PRIM_CDR(v_2317358_25);
+Obj v_2317360_25 = PRIM_CDR(v_2317359_25);
+Obj v_2317361_25 = PRIM_EQ(Nil, v_2317360_25);
+if (True == v_2317361_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_b);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316666_25);
+coraCall0(co, v_2316740_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316666_25);
+coraCall0(co, v_2316740_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316666_25);
+coraCall0(co, v_2316740_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316666_25);
+coraCall0(co, v_2316740_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316666_25);
+coraCall0(co, v_2316740_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316666_25);
+coraCall0(co, v_2316740_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317291_25= co->res;
-Obj v_2317288_25 = R[1];
+Obj v_2317365_25= co->res;
+Obj v_2317362_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317288_25, v_2317291_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_2317362_25, v_2317365_25);
 return;
 }
 case 2:
 {
-Obj v_2317289_25= co->res;
+Obj v_2317363_25= co->res;
 Obj v_a = R[1];
-Obj v_2317288_25 = R[2];
-Obj v_2317290_25 = makeCons(co->gc, v_a, Nil);
-R[1] = v_2317288_25;
+Obj v_2317362_25 = R[2];
+Obj v_2317364_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2317362_25;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317289_25, v_2317290_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317363_25, v_2317364_25);
 return;
 }
 case 3:
 {
-Obj v_2317288_25= co->res;
+Obj v_2317362_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
 R[1] = v_a;
-R[2] = v_2317288_25;
+R[2] = v_2317362_25;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_c);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_c);
 return;
 }
 }
@@ -6889,38 +6974,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316667_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v_2317252_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317252_25) {
-Obj v_2317253_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317254_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317253_25);
-if (True == v_2317254_25) {
-Obj v_2317255_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317256_25 = PRIM_ISCONS(v_2317255_25);
-if (True == v_2317256_25) {
-Obj v_2317257_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317258_25 = PRIM_CAR(v_2317257_25);
-Obj v_lam = v_2317258_25;
-Obj v_2317259_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317260_25 = PRIM_CDR(v_2317259_25);
-Obj v_more = v_2317260_25;
-Obj v_2317261_25 = makeCons(co->gc, v_lam, v_more);
+Obj v_2316741_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v_2317326_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317326_25) {
+Obj v_2317327_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317328_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317327_25);
+if (True == v_2317328_25) {
+Obj v_2317329_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317330_25 = PRIM_ISCONS(v_2317329_25);
+if (True == v_2317330_25) {
+Obj v_2317331_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317332_25 = PRIM_CAR(v_2317331_25);
+Obj v_lam = v_2317332_25;
+Obj v_2317333_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317334_25 = PRIM_CDR(v_2317333_25);
+Obj v_more = v_2317334_25;
+Obj v_2317335_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317261_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317335_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316667_25);
+coraCall0(co, v_2316741_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316667_25);
+coraCall0(co, v_2316741_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316667_25);
+coraCall0(co, v_2316741_25);
 return;
 }
 }
@@ -6931,43 +7016,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316668_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v_2317242_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317242_25) {
-Obj v_2317243_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317244_25 = PRIM_EQ(getBinding(co, packageID, 72).name, v_2317243_25);
-if (True == v_2317244_25) {
-Obj v_2317245_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317246_25 = PRIM_ISCONS(v_2317245_25);
-if (True == v_2317246_25) {
-Obj v_2317247_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317248_25 = PRIM_CAR(v_2317247_25);
-Obj v_x = v_2317248_25;
-Obj v_2317249_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317250_25 = PRIM_CDR(v_2317249_25);
-Obj v_2317251_25 = PRIM_EQ(Nil, v_2317250_25);
-if (True == v_2317251_25) {
+Obj v_2316742_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v_2317316_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317316_25) {
+Obj v_2317317_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317318_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317317_25);
+if (True == v_2317318_25) {
+Obj v_2317319_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317320_25 = PRIM_ISCONS(v_2317319_25);
+if (True == v_2317320_25) {
+Obj v_2317321_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317322_25 = PRIM_CAR(v_2317321_25);
+Obj v_x = v_2317322_25;
+Obj v_2317323_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317324_25 = PRIM_CDR(v_2317323_25);
+Obj v_2317325_25 = PRIM_EQ(Nil, v_2317324_25);
+if (True == v_2317325_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316668_25);
+coraCall0(co, v_2316742_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316668_25);
+coraCall0(co, v_2316742_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316668_25);
+coraCall0(co, v_2316742_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316668_25);
+coraCall0(co, v_2316742_25);
 return;
 }
 }
@@ -6978,67 +7063,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316669_25 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v_2317222_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317222_25) {
-Obj v_2317223_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317224_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317223_25);
-if (True == v_2317224_25) {
-Obj v_2317225_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317226_25 = PRIM_ISCONS(v_2317225_25);
-if (True == v_2317226_25) {
-Obj v_2317227_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317228_25 = PRIM_CAR(v_2317227_25);
-Obj v_exp = v_2317228_25;
-Obj v_2317229_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317230_25 = PRIM_CDR(v_2317229_25);
-Obj v_2317231_25 = PRIM_ISCONS(v_2317230_25);
-if (True == v_2317231_25) {
-Obj v_2317232_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317233_25 = PRIM_CDR(v_2317232_25);
-Obj v_2317234_25 = PRIM_CAR(v_2317233_25);
-Obj v_cont = v_2317234_25;
-Obj v_2317235_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317236_25 = PRIM_CDR(v_2317235_25);
-Obj v_2317237_25 = PRIM_CDR(v_2317236_25);
-Obj v_2317238_25 = PRIM_EQ(Nil, v_2317237_25);
-if (True == v_2317238_25) {
-Obj v_2317239_25 = makeCons(co->gc, v_cont, Nil);
-Obj v_2317240_25 = makeCons(co->gc, v_exp, v_2317239_25);
+Obj v_2316743_25 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v_2317296_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317296_25) {
+Obj v_2317297_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317298_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317297_25);
+if (True == v_2317298_25) {
+Obj v_2317299_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317300_25 = PRIM_ISCONS(v_2317299_25);
+if (True == v_2317300_25) {
+Obj v_2317301_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317302_25 = PRIM_CAR(v_2317301_25);
+Obj v_exp = v_2317302_25;
+Obj v_2317303_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317304_25 = PRIM_CDR(v_2317303_25);
+Obj v_2317305_25 = PRIM_ISCONS(v_2317304_25);
+if (True == v_2317305_25) {
+Obj v_2317306_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317307_25 = PRIM_CDR(v_2317306_25);
+Obj v_2317308_25 = PRIM_CAR(v_2317307_25);
+Obj v_cont = v_2317308_25;
+Obj v_2317309_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317310_25 = PRIM_CDR(v_2317309_25);
+Obj v_2317311_25 = PRIM_CDR(v_2317310_25);
+Obj v_2317312_25 = PRIM_EQ(Nil, v_2317311_25);
+if (True == v_2317312_25) {
+Obj v_2317313_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2317314_25 = makeCons(co->gc, v_exp, v_2317313_25);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317240_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317314_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316669_25);
+coraCall0(co, v_2316743_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316669_25);
+coraCall0(co, v_2316743_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316669_25);
+coraCall0(co, v_2316743_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316669_25);
+coraCall0(co, v_2316743_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316669_25);
+coraCall0(co, v_2316743_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317241_25= co->res;
+Obj v_2317315_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317241_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317315_25);
 return;
 }
 }
@@ -7048,43 +7133,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316670_25 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v_2317212_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317212_25) {
-Obj v_2317213_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317214_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317213_25);
-if (True == v_2317214_25) {
-Obj v_2317215_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317216_25 = PRIM_ISCONS(v_2317215_25);
-if (True == v_2317216_25) {
-Obj v_2317217_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317218_25 = PRIM_CAR(v_2317217_25);
-Obj v_exp = v_2317218_25;
-Obj v_2317219_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317220_25 = PRIM_CDR(v_2317219_25);
-Obj v_2317221_25 = PRIM_EQ(Nil, v_2317220_25);
-if (True == v_2317221_25) {
+Obj v_2316744_25 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v_2317286_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317286_25) {
+Obj v_2317287_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317288_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317287_25);
+if (True == v_2317288_25) {
+Obj v_2317289_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317290_25 = PRIM_ISCONS(v_2317289_25);
+if (True == v_2317290_25) {
+Obj v_2317291_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317292_25 = PRIM_CAR(v_2317291_25);
+Obj v_exp = v_2317292_25;
+Obj v_2317293_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317294_25 = PRIM_CDR(v_2317293_25);
+Obj v_2317295_25 = PRIM_EQ(Nil, v_2317294_25);
+if (True == v_2317295_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316670_25);
+coraCall0(co, v_2316744_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316670_25);
+coraCall0(co, v_2316744_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316670_25);
+coraCall0(co, v_2316744_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316670_25);
+coraCall0(co, v_2316744_25);
 return;
 }
 }
@@ -7095,67 +7180,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316671_25 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj v_2317194_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317194_25) {
-Obj v_2317195_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317196_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317195_25);
-if (True == v_2317196_25) {
-Obj v_2317197_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317198_25 = PRIM_ISCONS(v_2317197_25);
-if (True == v_2317198_25) {
-Obj v_2317199_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317200_25 = PRIM_CAR(v_2317199_25);
-Obj v_arg = v_2317200_25;
-Obj v_2317201_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317202_25 = PRIM_CDR(v_2317201_25);
-Obj v_2317203_25 = PRIM_ISCONS(v_2317202_25);
-if (True == v_2317203_25) {
-Obj v_2317204_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317205_25 = PRIM_CDR(v_2317204_25);
-Obj v_2317206_25 = PRIM_CAR(v_2317205_25);
-Obj v_body = v_2317206_25;
-Obj v_2317207_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317208_25 = PRIM_CDR(v_2317207_25);
-Obj v_2317209_25 = PRIM_CDR(v_2317208_25);
-Obj v_2317210_25 = PRIM_EQ(Nil, v_2317209_25);
-if (True == v_2317210_25) {
+Obj v_2316745_25 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v_2317268_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317268_25) {
+Obj v_2317269_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317270_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317269_25);
+if (True == v_2317270_25) {
+Obj v_2317271_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317272_25 = PRIM_ISCONS(v_2317271_25);
+if (True == v_2317272_25) {
+Obj v_2317273_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317274_25 = PRIM_CAR(v_2317273_25);
+Obj v_arg = v_2317274_25;
+Obj v_2317275_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317276_25 = PRIM_CDR(v_2317275_25);
+Obj v_2317277_25 = PRIM_ISCONS(v_2317276_25);
+if (True == v_2317277_25) {
+Obj v_2317278_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317279_25 = PRIM_CDR(v_2317278_25);
+Obj v_2317280_25 = PRIM_CAR(v_2317279_25);
+Obj v_body = v_2317280_25;
+Obj v_2317281_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317282_25 = PRIM_CDR(v_2317281_25);
+Obj v_2317283_25 = PRIM_CDR(v_2317282_25);
+Obj v_2317284_25 = PRIM_EQ(Nil, v_2317283_25);
+if (True == v_2317284_25) {
 R[1] = v_arg;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316671_25);
+coraCall0(co, v_2316745_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316671_25);
+coraCall0(co, v_2316745_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316671_25);
+coraCall0(co, v_2316745_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316671_25);
+coraCall0(co, v_2316745_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316671_25);
+coraCall0(co, v_2316745_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317211_25= co->res;
+Obj v_2317285_25= co->res;
 Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2317211_25, v_arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317285_25, v_arg);
 return;
 }
 }
@@ -7165,27 +7250,27 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317189_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317189_25) {
-Obj v_2317190_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317190_25;
-Obj v_2317191_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317191_25;
-Obj v_2317192_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317263_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317263_25) {
+Obj v_2317264_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317264_25;
+Obj v_2317265_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317265_25;
+Obj v_2317266_25 = makeCons(co->gc, v_f, v_args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), v_2317192_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317266_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317193_25= co->res;
+Obj v_2317267_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, v_2317193_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317267_25);
 return;
 }
 }
@@ -7195,42 +7280,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316652_25 = R[1];
-Obj v_2316653_25 = makeNative(co->gc, 1, clofun30, 0, 1, v_2316652_25);
-Obj v_2317175_25 = PRIM_ISCONS(v_2316652_25);
-if (True == v_2317175_25) {
-Obj v_2317176_25 = PRIM_CAR(v_2316652_25);
-Obj v_2317177_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2317176_25);
-if (True == v_2317177_25) {
-Obj v_2317178_25 = PRIM_CDR(v_2316652_25);
-Obj v_2317179_25 = PRIM_ISCONS(v_2317178_25);
-if (True == v_2317179_25) {
-Obj v_2317180_25 = PRIM_CDR(v_2316652_25);
-Obj v_2317181_25 = PRIM_CAR(v_2317180_25);
-Obj v_2317182_25 = PRIM_CDR(v_2316652_25);
-Obj v_2317183_25 = PRIM_CDR(v_2317182_25);
-Obj v_2317184_25 = PRIM_EQ(Nil, v_2317183_25);
-if (True == v_2317184_25) {
+Obj v_2316726_25 = R[1];
+Obj v_2316727_25 = makeNative(co->gc, 1, clofun30, 0, 1, v_2316726_25);
+Obj v_2317249_25 = PRIM_ISCONS(v_2316726_25);
+if (True == v_2317249_25) {
+Obj v_2317250_25 = PRIM_CAR(v_2316726_25);
+Obj v_2317251_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2317250_25);
+if (True == v_2317251_25) {
+Obj v_2317252_25 = PRIM_CDR(v_2316726_25);
+Obj v_2317253_25 = PRIM_ISCONS(v_2317252_25);
+if (True == v_2317253_25) {
+Obj v_2317254_25 = PRIM_CDR(v_2316726_25);
+Obj v_2317255_25 = PRIM_CAR(v_2317254_25);
+Obj v_2317256_25 = PRIM_CDR(v_2316726_25);
+Obj v_2317257_25 = PRIM_CDR(v_2317256_25);
+Obj v_2317258_25 = PRIM_EQ(Nil, v_2317257_25);
+if (True == v_2317258_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316653_25);
+coraCall0(co, v_2316727_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316653_25);
+coraCall0(co, v_2316727_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316653_25);
+coraCall0(co, v_2316727_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316653_25);
+coraCall0(co, v_2316727_25);
 return;
 }
 }
@@ -7241,41 +7326,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316654_25 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v_2317165_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317165_25) {
-Obj v_2317166_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317167_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2317166_25);
-if (True == v_2317167_25) {
-Obj v_2317168_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317169_25 = PRIM_ISCONS(v_2317168_25);
-if (True == v_2317169_25) {
-Obj v_2317170_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317171_25 = PRIM_CAR(v_2317170_25);
-Obj v_2317172_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317173_25 = PRIM_CDR(v_2317172_25);
-Obj v_2317174_25 = PRIM_EQ(Nil, v_2317173_25);
-if (True == v_2317174_25) {
+Obj v_2316728_25 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v_2317239_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317239_25) {
+Obj v_2317240_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317241_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2317240_25);
+if (True == v_2317241_25) {
+Obj v_2317242_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317243_25 = PRIM_ISCONS(v_2317242_25);
+if (True == v_2317243_25) {
+Obj v_2317244_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317245_25 = PRIM_CAR(v_2317244_25);
+Obj v_2317246_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317247_25 = PRIM_CDR(v_2317246_25);
+Obj v_2317248_25 = PRIM_EQ(Nil, v_2317247_25);
+if (True == v_2317248_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316654_25);
+coraCall0(co, v_2316728_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316654_25);
+coraCall0(co, v_2316728_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316654_25);
+coraCall0(co, v_2316728_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316654_25);
+coraCall0(co, v_2316728_25);
 return;
 }
 }
@@ -7286,41 +7371,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316655_25 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v_2317155_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317155_25) {
-Obj v_2317156_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317157_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317156_25);
-if (True == v_2317157_25) {
-Obj v_2317158_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317159_25 = PRIM_ISCONS(v_2317158_25);
-if (True == v_2317159_25) {
-Obj v_2317160_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317161_25 = PRIM_CAR(v_2317160_25);
-Obj v_2317162_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317163_25 = PRIM_CDR(v_2317162_25);
-Obj v_2317164_25 = PRIM_EQ(Nil, v_2317163_25);
-if (True == v_2317164_25) {
+Obj v_2316729_25 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v_2317229_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317229_25) {
+Obj v_2317230_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317231_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2317230_25);
+if (True == v_2317231_25) {
+Obj v_2317232_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317233_25 = PRIM_ISCONS(v_2317232_25);
+if (True == v_2317233_25) {
+Obj v_2317234_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317235_25 = PRIM_CAR(v_2317234_25);
+Obj v_2317236_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317237_25 = PRIM_CDR(v_2317236_25);
+Obj v_2317238_25 = PRIM_EQ(Nil, v_2317237_25);
+if (True == v_2317238_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316655_25);
+coraCall0(co, v_2316729_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316655_25);
+coraCall0(co, v_2316729_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316655_25);
+coraCall0(co, v_2316729_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316655_25);
+coraCall0(co, v_2316729_25);
 return;
 }
 }
@@ -7331,41 +7416,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316656_25 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj v_2317145_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317145_25) {
-Obj v_2317146_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317147_25 = PRIM_EQ(getBinding(co, packageID, 84).name, v_2317146_25);
-if (True == v_2317147_25) {
-Obj v_2317148_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317149_25 = PRIM_ISCONS(v_2317148_25);
-if (True == v_2317149_25) {
-Obj v_2317150_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317151_25 = PRIM_CAR(v_2317150_25);
-Obj v_2317152_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317153_25 = PRIM_CDR(v_2317152_25);
-Obj v_2317154_25 = PRIM_EQ(Nil, v_2317153_25);
-if (True == v_2317154_25) {
+Obj v_2316730_25 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj v_2317219_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317219_25) {
+Obj v_2317220_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317221_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317220_25);
+if (True == v_2317221_25) {
+Obj v_2317222_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317223_25 = PRIM_ISCONS(v_2317222_25);
+if (True == v_2317223_25) {
+Obj v_2317224_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317225_25 = PRIM_CAR(v_2317224_25);
+Obj v_2317226_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317227_25 = PRIM_CDR(v_2317226_25);
+Obj v_2317228_25 = PRIM_EQ(Nil, v_2317227_25);
+if (True == v_2317228_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316656_25);
+coraCall0(co, v_2316730_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316656_25);
+coraCall0(co, v_2316730_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316656_25);
+coraCall0(co, v_2316730_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316656_25);
+coraCall0(co, v_2316730_25);
 return;
 }
 }
@@ -7376,41 +7461,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316657_25 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj v_2317135_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317135_25) {
-Obj v_2317136_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317137_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2317136_25);
-if (True == v_2317137_25) {
-Obj v_2317138_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317139_25 = PRIM_ISCONS(v_2317138_25);
-if (True == v_2317139_25) {
-Obj v_2317140_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317141_25 = PRIM_CAR(v_2317140_25);
-Obj v_2317142_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317143_25 = PRIM_CDR(v_2317142_25);
-Obj v_2317144_25 = PRIM_EQ(Nil, v_2317143_25);
-if (True == v_2317144_25) {
+Obj v_2316731_25 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj v_2317209_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317209_25) {
+Obj v_2317210_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317211_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317210_25);
+if (True == v_2317211_25) {
+Obj v_2317212_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317213_25 = PRIM_ISCONS(v_2317212_25);
+if (True == v_2317213_25) {
+Obj v_2317214_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317215_25 = PRIM_CAR(v_2317214_25);
+Obj v_2317216_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317217_25 = PRIM_CDR(v_2317216_25);
+Obj v_2317218_25 = PRIM_EQ(Nil, v_2317217_25);
+if (True == v_2317218_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316657_25);
+coraCall0(co, v_2316731_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316657_25);
+coraCall0(co, v_2316731_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316657_25);
+coraCall0(co, v_2316731_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316657_25);
+coraCall0(co, v_2316731_25);
 return;
 }
 }
@@ -7421,50 +7506,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316658_25 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj v_2317125_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317125_25) {
-Obj v_2317126_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317127_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317126_25);
-if (True == v_2317127_25) {
-Obj v_2317128_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317129_25 = PRIM_ISCONS(v_2317128_25);
-if (True == v_2317129_25) {
-Obj v_2317130_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317131_25 = PRIM_CAR(v_2317130_25);
-Obj v_label = v_2317131_25;
-Obj v_2317132_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317133_25 = PRIM_CDR(v_2317132_25);
-R[1] = v_2316658_25;
+Obj v_2316732_25 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj v_2317199_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317199_25) {
+Obj v_2317200_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317201_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317200_25);
+if (True == v_2317201_25) {
+Obj v_2317202_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317203_25 = PRIM_ISCONS(v_2317202_25);
+if (True == v_2317203_25) {
+Obj v_2317204_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317205_25 = PRIM_CAR(v_2317204_25);
+Obj v_label = v_2317205_25;
+Obj v_2317206_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317207_25 = PRIM_CDR(v_2317206_25);
+R[1] = v_2316732_25;
 saveCont(co, clofun26, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_label);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316658_25);
+coraCall0(co, v_2316732_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316658_25);
+coraCall0(co, v_2316732_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316658_25);
+coraCall0(co, v_2316732_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317134_25= co->res;
-Obj v_2316658_25 = R[1];
-if (True == v_2317134_25) {
+Obj v_2317208_25= co->res;
+Obj v_2316732_25 = R[1];
+if (True == v_2317208_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316658_25);
+coraCall0(co, v_2316732_25);
 return;
 }
 }
@@ -7485,46 +7570,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316647_25 = R[1];
-Obj v_2316648_25 = R[2];
-Obj v_2317114_25 = PRIM_EQ(Nil, v_2316647_25);
-if (True == v_2317114_25) {
+Obj v_2316721_25 = R[1];
+Obj v_2316722_25 = R[2];
+Obj v_2317188_25 = PRIM_EQ(Nil, v_2316721_25);
+if (True == v_2317188_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2316650_25 = makeNative(co->gc, 2, clofun23, 0, 2, v_2316647_25, v_2316648_25);
-Obj v_2317120_25 = PRIM_ISCONS(v_2316647_25);
-if (True == v_2317120_25) {
-Obj v_2317121_25 = PRIM_CAR(v_2316647_25);
-Obj v_x = v_2317121_25;
-Obj v_2317122_25 = PRIM_CDR(v_2316647_25);
-Obj v_y = v_2317122_25;
+Obj v_2316724_25 = makeNative(co->gc, 2, clofun23, 0, 2, v_2316721_25, v_2316722_25);
+Obj v_2317194_25 = PRIM_ISCONS(v_2316721_25);
+if (True == v_2317194_25) {
+Obj v_2317195_25 = PRIM_CAR(v_2316721_25);
+Obj v_x = v_2317195_25;
+Obj v_2317196_25 = PRIM_CDR(v_2316721_25);
+Obj v_y = v_2317196_25;
 R[1] = v_y;
-R[2] = v_2316648_25;
-R[3] = v_2316650_25;
+R[2] = v_2316722_25;
+R[3] = v_2316724_25;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_x, v_2316648_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v_x, v_2316722_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316650_25);
+coraCall0(co, v_2316724_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317123_25= co->res;
+Obj v_2317197_25= co->res;
 Obj v_y = R[1];
-Obj v_2316648_25 = R[2];
-Obj v_2316650_25 = R[3];
-if (True == v_2317123_25) {
+Obj v_2316722_25 = R[2];
+Obj v_2316724_25 = R[3];
+if (True == v_2317197_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_y, v_2316648_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, v_2316722_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316650_25);
+coraCall0(co, v_2316724_25);
 return;
 }
 }
@@ -7535,28 +7620,28 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317115_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317115_25) {
-Obj v_2317116_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317116_25;
-Obj v_2317117_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317117_25;
+Obj v_2317189_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317189_25) {
+Obj v_2317190_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317190_25;
+Obj v_2317191_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317191_25;
 R[1] = v_x;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_y, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317118_25= co->res;
+Obj v_2317192_25= co->res;
 Obj v_x = R[1];
-Obj v_2317119_25 = makeCons(co->gc, v_x, v_2317118_25);
-coraReturn(co, v_2317119_25);
+Obj v_2317193_25 = makeCons(co->gc, v_x, v_2317192_25);
+coraReturn(co, v_2317193_25);
 return;
 }
 }
@@ -7566,46 +7651,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316642_25 = R[1];
-Obj v_2316643_25 = R[2];
-Obj v_2317103_25 = PRIM_EQ(Nil, v_2316642_25);
-if (True == v_2317103_25) {
-coraReturn(co, v_2316643_25);
+Obj v_2316716_25 = R[1];
+Obj v_2316717_25 = R[2];
+Obj v_2317177_25 = PRIM_EQ(Nil, v_2316716_25);
+if (True == v_2317177_25) {
+coraReturn(co, v_2316717_25);
 return;
 } else {
-Obj v_2316645_25 = makeNative(co->gc, 2, clofun21, 0, 2, v_2316642_25, v_2316643_25);
-Obj v_2317109_25 = PRIM_ISCONS(v_2316642_25);
-if (True == v_2317109_25) {
-Obj v_2317110_25 = PRIM_CAR(v_2316642_25);
-Obj v_x = v_2317110_25;
-Obj v_2317111_25 = PRIM_CDR(v_2316642_25);
-Obj v_y = v_2317111_25;
+Obj v_2316719_25 = makeNative(co->gc, 2, clofun21, 0, 2, v_2316716_25, v_2316717_25);
+Obj v_2317183_25 = PRIM_ISCONS(v_2316716_25);
+if (True == v_2317183_25) {
+Obj v_2317184_25 = PRIM_CAR(v_2316716_25);
+Obj v_x = v_2317184_25;
+Obj v_2317185_25 = PRIM_CDR(v_2316716_25);
+Obj v_y = v_2317185_25;
 R[1] = v_y;
-R[2] = v_2316643_25;
-R[3] = v_2316645_25;
+R[2] = v_2316717_25;
+R[3] = v_2316719_25;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_x, v_2316643_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v_x, v_2316717_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316645_25);
+coraCall0(co, v_2316719_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317112_25= co->res;
+Obj v_2317186_25= co->res;
 Obj v_y = R[1];
-Obj v_2316643_25 = R[2];
-Obj v_2316645_25 = R[3];
-if (True == v_2317112_25) {
+Obj v_2316717_25 = R[2];
+Obj v_2316719_25 = R[3];
+if (True == v_2317186_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, v_2316643_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, v_2316717_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316645_25);
+coraCall0(co, v_2316719_25);
 return;
 }
 }
@@ -7616,28 +7701,28 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317104_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317104_25) {
-Obj v_2317105_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317105_25;
-Obj v_2317106_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317106_25;
+Obj v_2317178_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317178_25) {
+Obj v_2317179_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317179_25;
+Obj v_2317180_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317180_25;
 R[1] = v_x;
 saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317107_25= co->res;
+Obj v_2317181_25= co->res;
 Obj v_x = R[1];
-Obj v_2317108_25 = makeCons(co->gc, v_x, v_2317107_25);
-coraReturn(co, v_2317108_25);
+Obj v_2317182_25 = makeCons(co->gc, v_x, v_2317181_25);
+coraReturn(co, v_2317182_25);
 return;
 }
 }
@@ -7647,66 +7732,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316628_25 = R[1];
-Obj v_2316629_25 = R[2];
-Obj v_2316630_25 = R[3];
-Obj v_2316772_25 = makeNative(co->gc, 2, clofun19, 1, 3, v_2316628_25, v_2316630_25, v_2316629_25);
-R[1] = v_2316630_25;
-R[2] = v_2316772_25;
+Obj v_2316702_25 = R[1];
+Obj v_2316703_25 = R[2];
+Obj v_2316704_25 = R[3];
+Obj v_2316846_25 = makeNative(co->gc, 2, clofun19, 1, 3, v_2316702_25, v_2316704_25, v_2316703_25);
+R[1] = v_2316704_25;
+R[2] = v_2316846_25;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2316630_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_2316704_25);
 return;
 }
 case 1:
 {
-Obj v_2317101_25= co->res;
-Obj v_2316772_25 = R[1];
-if (True == v_2317101_25) {
+Obj v_2317175_25= co->res;
+Obj v_2316846_25 = R[1];
+if (True == v_2317175_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316772_25, True);
+coraCall1(co, v_2316846_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316772_25, False);
+coraCall1(co, v_2316846_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317100_25= co->res;
-Obj v_2316630_25 = R[1];
-Obj v_2316772_25 = R[2];
-if (True == v_2317100_25) {
+Obj v_2317174_25= co->res;
+Obj v_2316704_25 = R[1];
+Obj v_2316846_25 = R[2];
+if (True == v_2317174_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316772_25, True);
+coraCall1(co, v_2316846_25, True);
 return;
 } else {
-R[1] = v_2316772_25;
+R[1] = v_2316846_25;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_2316630_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2316704_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2317098_25= co->res;
-Obj v_2316630_25 = R[1];
-Obj v_2316772_25 = R[2];
-if (True == v_2317098_25) {
+Obj v_2317172_25= co->res;
+Obj v_2316704_25 = R[1];
+Obj v_2316846_25 = R[2];
+if (True == v_2317172_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316772_25, True);
+coraCall1(co, v_2316846_25, True);
 return;
 } else {
-Obj v_2317099_25 = primIsString(v_2316630_25);
-if (True == v_2317099_25) {
+Obj v_2317173_25 = primIsString(v_2316704_25);
+if (True == v_2317173_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316772_25, True);
+coraCall1(co, v_2316846_25, True);
 return;
 } else {
-R[1] = v_2316630_25;
-R[2] = v_2316772_25;
+R[1] = v_2316704_25;
+R[2] = v_2316846_25;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2316630_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2316704_25);
 return;
 }
 }
@@ -7718,62 +7803,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316773_25 = R[1];
-if (True == v_2316773_25) {
-Obj v_2316909_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v_2316910_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2316909_25);
-coraReturn(co, v_2316910_25);
+Obj v_2316847_25 = R[1];
+if (True == v_2316847_25) {
+Obj v_2316983_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2316984_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2316983_25);
+coraReturn(co, v_2316984_25);
 return;
 } else {
-Obj v_2316632_25 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v_2317085_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317085_25) {
-Obj v_2317086_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317087_25 = PRIM_EQ(getBinding(co, packageID, 84).name, v_2317086_25);
-if (True == v_2317087_25) {
-Obj v_2317088_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317089_25 = PRIM_ISCONS(v_2317088_25);
-if (True == v_2317089_25) {
-Obj v_2317090_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317091_25 = PRIM_CAR(v_2317090_25);
-Obj v_x = v_2317091_25;
-Obj v_2317092_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317093_25 = PRIM_CDR(v_2317092_25);
-Obj v_2317094_25 = PRIM_EQ(Nil, v_2317093_25);
-if (True == v_2317094_25) {
+Obj v_2316706_25 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v_2317159_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317159_25) {
+Obj v_2317160_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317161_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317160_25);
+if (True == v_2317161_25) {
+Obj v_2317162_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317163_25 = PRIM_ISCONS(v_2317162_25);
+if (True == v_2317163_25) {
+Obj v_2317164_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317165_25 = PRIM_CAR(v_2317164_25);
+Obj v_x = v_2317165_25;
+Obj v_2317166_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317167_25 = PRIM_CDR(v_2317166_25);
+Obj v_2317168_25 = PRIM_EQ(Nil, v_2317167_25);
+if (True == v_2317168_25) {
 R[1] = v_x;
 saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316632_25);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316632_25);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316632_25);
+coraCall0(co, v_2316706_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316632_25);
+coraCall0(co, v_2316706_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317095_25= co->res;
+Obj v_2317169_25= co->res;
 Obj v_x = R[1];
-Obj v_2317096_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2317097_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317096_25);
-coraReturn(co, v_2317097_25);
+Obj v_2317170_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2317171_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317170_25);
+coraReturn(co, v_2317171_25);
 return;
 }
 }
@@ -7783,107 +7868,107 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316911_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2316911_25) {
+Obj v_2316985_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2316985_25) {
 saveCont(co, clofun18, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj v_2316634_25 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317063_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317063_25) {
-Obj v_2317064_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317065_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2317064_25);
-if (True == v_2317065_25) {
-Obj v_2317066_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317067_25 = PRIM_ISCONS(v_2317066_25);
-if (True == v_2317067_25) {
-Obj v_2317068_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317069_25 = PRIM_CAR(v_2317068_25);
-Obj v_args = v_2317069_25;
-Obj v_2317070_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317071_25 = PRIM_CDR(v_2317070_25);
-Obj v_2317072_25 = PRIM_ISCONS(v_2317071_25);
-if (True == v_2317072_25) {
-Obj v_2317073_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317074_25 = PRIM_CDR(v_2317073_25);
-Obj v_2317075_25 = PRIM_CAR(v_2317074_25);
-Obj v_body = v_2317075_25;
-Obj v_2317076_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317077_25 = PRIM_CDR(v_2317076_25);
-Obj v_2317078_25 = PRIM_CDR(v_2317077_25);
-Obj v_2317079_25 = PRIM_EQ(Nil, v_2317078_25);
-if (True == v_2317079_25) {
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj v_2316708_25 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317137_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317137_25) {
+Obj v_2317138_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317139_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317138_25);
+if (True == v_2317139_25) {
+Obj v_2317140_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317141_25 = PRIM_ISCONS(v_2317140_25);
+if (True == v_2317141_25) {
+Obj v_2317142_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317143_25 = PRIM_CAR(v_2317142_25);
+Obj v_args = v_2317143_25;
+Obj v_2317144_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317145_25 = PRIM_CDR(v_2317144_25);
+Obj v_2317146_25 = PRIM_ISCONS(v_2317145_25);
+if (True == v_2317146_25) {
+Obj v_2317147_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317148_25 = PRIM_CDR(v_2317147_25);
+Obj v_2317149_25 = PRIM_CAR(v_2317148_25);
+Obj v_body = v_2317149_25;
+Obj v_2317150_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317151_25 = PRIM_CDR(v_2317150_25);
+Obj v_2317152_25 = PRIM_CDR(v_2317151_25);
+Obj v_2317153_25 = PRIM_EQ(Nil, v_2317152_25);
+if (True == v_2317153_25) {
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun18, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), v_args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316634_25);
+coraCall0(co, v_2316708_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316634_25);
+coraCall0(co, v_2316708_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316634_25);
+coraCall0(co, v_2316708_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316634_25);
+coraCall0(co, v_2316708_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316634_25);
+coraCall0(co, v_2316708_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316913_25= co->res;
-Obj v_2316914_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2316915_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2316914_25);
-coraReturn(co, v_2316915_25);
+Obj v_2316987_25= co->res;
+Obj v_2316988_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2316989_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2316988_25);
+coraReturn(co, v_2316989_25);
 return;
 }
 case 2:
 {
-Obj v_2316912_25= co->res;
-if (True == v_2316912_25) {
+Obj v_2316986_25= co->res;
+if (True == v_2316986_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
 saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), closureRef(R[0], 0), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 }
 case 3:
 {
-Obj v_2317081_25= co->res;
+Obj v_2317155_25= co->res;
 Obj v_args = R[1];
-Obj v_2317082_25 = makeCons(co->gc, v_2317081_25, Nil);
-Obj v_2317083_25 = makeCons(co->gc, v_args, v_2317082_25);
-Obj v_2317084_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317083_25);
-coraReturn(co, v_2317084_25);
+Obj v_2317156_25 = makeCons(co->gc, v_2317155_25, Nil);
+Obj v_2317157_25 = makeCons(co->gc, v_args, v_2317156_25);
+Obj v_2317158_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317157_25);
+coraReturn(co, v_2317158_25);
 return;
 }
 case 4:
 {
-Obj v_2317080_25= co->res;
+Obj v_2317154_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v_2317080_25, closureRef(R[0], 2), v_body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v_2317154_25, closureRef(R[0], 2), v_body);
 return;
 }
 }
@@ -7893,74 +7978,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316635_25 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317031_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317031_25) {
-Obj v_2317032_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317033_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317032_25);
-if (True == v_2317033_25) {
-Obj v_2317034_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317035_25 = PRIM_ISCONS(v_2317034_25);
-if (True == v_2317035_25) {
-Obj v_2317036_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317037_25 = PRIM_CAR(v_2317036_25);
-Obj v_2317038_25 = PRIM_ISCONS(v_2317037_25);
-if (True == v_2317038_25) {
-Obj v_2317039_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317040_25 = PRIM_CAR(v_2317039_25);
-Obj v_2317041_25 = PRIM_CAR(v_2317040_25);
-Obj v_2317042_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317041_25);
-if (True == v_2317042_25) {
-Obj v_2317043_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317044_25 = PRIM_CAR(v_2317043_25);
-Obj v_2317045_25 = PRIM_CDR(v_2317044_25);
-Obj v_exp1 = v_2317045_25;
-Obj v_2317046_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317047_25 = PRIM_CDR(v_2317046_25);
-Obj v_exp2 = v_2317047_25;
-Obj v_2317048_25 = primGenSym(co);
-Obj v_f = v_2317048_25;
-Obj v_2317049_25 = primGenSym(co);
-Obj v_v = v_2317049_25;
-Obj v_2317050_25 = makeCons(co->gc, v_v, Nil);
-Obj v_2317051_25 = makeCons(co->gc, v_v, v_exp2);
-Obj v_2317052_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317051_25);
-Obj v_2317053_25 = makeCons(co->gc, v_2317052_25, Nil);
-Obj v_2317054_25 = makeCons(co->gc, v_2317050_25, v_2317053_25);
-Obj v_2317055_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2317054_25);
-Obj v_2317056_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_exp1);
-Obj v_2317057_25 = makeCons(co->gc, v_2317056_25, Nil);
-Obj v_2317058_25 = makeCons(co->gc, v_f, v_2317057_25);
-Obj v_2317059_25 = makeCons(co->gc, v_2317058_25, Nil);
-Obj v_2317060_25 = makeCons(co->gc, v_2317055_25, v_2317059_25);
-Obj v_2317061_25 = makeCons(co->gc, v_f, v_2317060_25);
-Obj v_2317062_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317061_25);
+Obj v_2316709_25 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317105_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317105_25) {
+Obj v_2317106_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317107_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317106_25);
+if (True == v_2317107_25) {
+Obj v_2317108_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317109_25 = PRIM_ISCONS(v_2317108_25);
+if (True == v_2317109_25) {
+Obj v_2317110_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317111_25 = PRIM_CAR(v_2317110_25);
+Obj v_2317112_25 = PRIM_ISCONS(v_2317111_25);
+if (True == v_2317112_25) {
+Obj v_2317113_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317114_25 = PRIM_CAR(v_2317113_25);
+Obj v_2317115_25 = PRIM_CAR(v_2317114_25);
+Obj v_2317116_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317115_25);
+if (True == v_2317116_25) {
+Obj v_2317117_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317118_25 = PRIM_CAR(v_2317117_25);
+Obj v_2317119_25 = PRIM_CDR(v_2317118_25);
+Obj v_exp1 = v_2317119_25;
+Obj v_2317120_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317121_25 = PRIM_CDR(v_2317120_25);
+Obj v_exp2 = v_2317121_25;
+Obj v_2317122_25 = primGenSym(co);
+Obj v_f = v_2317122_25;
+Obj v_2317123_25 = primGenSym(co);
+Obj v_v = v_2317123_25;
+Obj v_2317124_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2317125_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2317126_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317125_25);
+Obj v_2317127_25 = makeCons(co->gc, v_2317126_25, Nil);
+Obj v_2317128_25 = makeCons(co->gc, v_2317124_25, v_2317127_25);
+Obj v_2317129_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317128_25);
+Obj v_2317130_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp1);
+Obj v_2317131_25 = makeCons(co->gc, v_2317130_25, Nil);
+Obj v_2317132_25 = makeCons(co->gc, v_f, v_2317131_25);
+Obj v_2317133_25 = makeCons(co->gc, v_2317132_25, Nil);
+Obj v_2317134_25 = makeCons(co->gc, v_2317129_25, v_2317133_25);
+Obj v_2317135_25 = makeCons(co->gc, v_f, v_2317134_25);
+Obj v_2317136_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317135_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317062_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317136_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316635_25);
+coraCall0(co, v_2316709_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316635_25);
+coraCall0(co, v_2316709_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316635_25);
+coraCall0(co, v_2316709_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316635_25);
+coraCall0(co, v_2316709_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316635_25);
+coraCall0(co, v_2316709_25);
 return;
 }
 }
@@ -7971,42 +8056,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316636_25 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317024_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317024_25) {
-Obj v_2317025_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317026_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317025_25);
-if (True == v_2317026_25) {
-Obj v_2317027_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317027_25;
+Obj v_2316710_25 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317098_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317098_25) {
+Obj v_2317099_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317100_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317099_25);
+if (True == v_2317100_25) {
+Obj v_2317101_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317101_25;
 R[1] = v_args;
 saveCont(co, clofun16, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316636_25);
+coraCall0(co, v_2316710_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316636_25);
+coraCall0(co, v_2316710_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317029_25= co->res;
-Obj v_2317030_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317029_25);
-coraReturn(co, v_2317030_25);
+Obj v_2317103_25= co->res;
+Obj v_2317104_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317103_25);
+coraReturn(co, v_2317104_25);
 return;
 }
 case 2:
 {
-Obj v_2317028_25= co->res;
+Obj v_2317102_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317028_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317102_25, v_args);
 return;
 }
 }
@@ -8016,78 +8101,78 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316637_25 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317002_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317002_25) {
-Obj v_2317003_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317004_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317003_25);
-if (True == v_2317004_25) {
-Obj v_2317005_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317006_25 = PRIM_ISCONS(v_2317005_25);
-if (True == v_2317006_25) {
-Obj v_2317007_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317008_25 = PRIM_CAR(v_2317007_25);
-Obj v_x = v_2317008_25;
-Obj v_2317009_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317010_25 = PRIM_CDR(v_2317009_25);
-Obj v_2317011_25 = PRIM_ISCONS(v_2317010_25);
-if (True == v_2317011_25) {
-Obj v_2317012_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317013_25 = PRIM_CDR(v_2317012_25);
-Obj v_2317014_25 = PRIM_CAR(v_2317013_25);
-Obj v_y = v_2317014_25;
-Obj v_2317015_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317016_25 = PRIM_CDR(v_2317015_25);
-Obj v_2317017_25 = PRIM_CDR(v_2317016_25);
-Obj v_2317018_25 = PRIM_EQ(Nil, v_2317017_25);
-if (True == v_2317018_25) {
+Obj v_2316711_25 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317076_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317076_25) {
+Obj v_2317077_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317078_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317077_25);
+if (True == v_2317078_25) {
+Obj v_2317079_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317080_25 = PRIM_ISCONS(v_2317079_25);
+if (True == v_2317080_25) {
+Obj v_2317081_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317082_25 = PRIM_CAR(v_2317081_25);
+Obj v_x = v_2317082_25;
+Obj v_2317083_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317084_25 = PRIM_CDR(v_2317083_25);
+Obj v_2317085_25 = PRIM_ISCONS(v_2317084_25);
+if (True == v_2317085_25) {
+Obj v_2317086_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317087_25 = PRIM_CDR(v_2317086_25);
+Obj v_2317088_25 = PRIM_CAR(v_2317087_25);
+Obj v_y = v_2317088_25;
+Obj v_2317089_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317090_25 = PRIM_CDR(v_2317089_25);
+Obj v_2317091_25 = PRIM_CDR(v_2317090_25);
+Obj v_2317092_25 = PRIM_EQ(Nil, v_2317091_25);
+if (True == v_2317092_25) {
 R[1] = v_y;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_x);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316637_25);
+coraCall0(co, v_2316711_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316637_25);
+coraCall0(co, v_2316711_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316637_25);
+coraCall0(co, v_2316711_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316637_25);
+coraCall0(co, v_2316711_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316637_25);
+coraCall0(co, v_2316711_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317020_25= co->res;
-Obj v_2317019_25 = R[1];
-Obj v_2317021_25 = makeCons(co->gc, v_2317020_25, Nil);
-Obj v_2317022_25 = makeCons(co->gc, v_2317019_25, v_2317021_25);
-Obj v_2317023_25 = makeCons(co->gc, getBinding(co, packageID, 85).name, v_2317022_25);
-coraReturn(co, v_2317023_25);
+Obj v_2317094_25= co->res;
+Obj v_2317093_25 = R[1];
+Obj v_2317095_25 = makeCons(co->gc, v_2317094_25, Nil);
+Obj v_2317096_25 = makeCons(co->gc, v_2317093_25, v_2317095_25);
+Obj v_2317097_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317096_25);
+coraReturn(co, v_2317097_25);
 return;
 }
 case 2:
 {
-Obj v_2317019_25= co->res;
+Obj v_2317093_25= co->res;
 Obj v_y = R[1];
-R[1] = v_2317019_25;
+R[1] = v_2317093_25;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_y);
 return;
 }
 }
@@ -8097,100 +8182,100 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316638_25 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2316969_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316969_25) {
-Obj v_2316970_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316971_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2316970_25);
-if (True == v_2316971_25) {
-Obj v_2316972_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316973_25 = PRIM_ISCONS(v_2316972_25);
-if (True == v_2316973_25) {
-Obj v_2316974_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316975_25 = PRIM_CAR(v_2316974_25);
-Obj v_a = v_2316975_25;
-Obj v_2316976_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316977_25 = PRIM_CDR(v_2316976_25);
-Obj v_2316978_25 = PRIM_ISCONS(v_2316977_25);
-if (True == v_2316978_25) {
-Obj v_2316979_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316980_25 = PRIM_CDR(v_2316979_25);
-Obj v_2316981_25 = PRIM_CAR(v_2316980_25);
-Obj v_b = v_2316981_25;
-Obj v_2316982_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316983_25 = PRIM_CDR(v_2316982_25);
-Obj v_2316984_25 = PRIM_CDR(v_2316983_25);
-Obj v_2316985_25 = PRIM_ISCONS(v_2316984_25);
-if (True == v_2316985_25) {
-Obj v_2316986_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316987_25 = PRIM_CDR(v_2316986_25);
-Obj v_2316988_25 = PRIM_CDR(v_2316987_25);
-Obj v_2316989_25 = PRIM_CAR(v_2316988_25);
-Obj v_c = v_2316989_25;
-Obj v_2316990_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316991_25 = PRIM_CDR(v_2316990_25);
-Obj v_2316992_25 = PRIM_CDR(v_2316991_25);
-Obj v_2316993_25 = PRIM_CDR(v_2316992_25);
-Obj v_2316994_25 = PRIM_EQ(Nil, v_2316993_25);
-if (True == v_2316994_25) {
+Obj v_2316712_25 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317043_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317043_25) {
+Obj v_2317044_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317045_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317044_25);
+if (True == v_2317045_25) {
+Obj v_2317046_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317047_25 = PRIM_ISCONS(v_2317046_25);
+if (True == v_2317047_25) {
+Obj v_2317048_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317049_25 = PRIM_CAR(v_2317048_25);
+Obj v_a = v_2317049_25;
+Obj v_2317050_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317051_25 = PRIM_CDR(v_2317050_25);
+Obj v_2317052_25 = PRIM_ISCONS(v_2317051_25);
+if (True == v_2317052_25) {
+Obj v_2317053_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317054_25 = PRIM_CDR(v_2317053_25);
+Obj v_2317055_25 = PRIM_CAR(v_2317054_25);
+Obj v_b = v_2317055_25;
+Obj v_2317056_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317057_25 = PRIM_CDR(v_2317056_25);
+Obj v_2317058_25 = PRIM_CDR(v_2317057_25);
+Obj v_2317059_25 = PRIM_ISCONS(v_2317058_25);
+if (True == v_2317059_25) {
+Obj v_2317060_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317061_25 = PRIM_CDR(v_2317060_25);
+Obj v_2317062_25 = PRIM_CDR(v_2317061_25);
+Obj v_2317063_25 = PRIM_CAR(v_2317062_25);
+Obj v_c = v_2317063_25;
+Obj v_2317064_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317065_25 = PRIM_CDR(v_2317064_25);
+Obj v_2317066_25 = PRIM_CDR(v_2317065_25);
+Obj v_2317067_25 = PRIM_CDR(v_2317066_25);
+Obj v_2317068_25 = PRIM_EQ(Nil, v_2317067_25);
+if (True == v_2317068_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316638_25);
+coraCall0(co, v_2316712_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316638_25);
+coraCall0(co, v_2316712_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316638_25);
+coraCall0(co, v_2316712_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316638_25);
+coraCall0(co, v_2316712_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316638_25);
+coraCall0(co, v_2316712_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316638_25);
+coraCall0(co, v_2316712_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2316997_25= co->res;
-Obj v_2316995_25 = R[1];
+Obj v_2317071_25= co->res;
+Obj v_2317069_25 = R[1];
 Obj v_a = R[2];
-Obj v_2316998_25 = makeCons(co->gc, v_2316997_25, Nil);
-Obj v_2316999_25 = makeCons(co->gc, v_2316995_25, v_2316998_25);
-Obj v_2317000_25 = makeCons(co->gc, v_a, v_2316999_25);
-Obj v_2317001_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317000_25);
-coraReturn(co, v_2317001_25);
+Obj v_2317072_25 = makeCons(co->gc, v_2317071_25, Nil);
+Obj v_2317073_25 = makeCons(co->gc, v_2317069_25, v_2317072_25);
+Obj v_2317074_25 = makeCons(co->gc, v_a, v_2317073_25);
+Obj v_2317075_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317074_25);
+coraReturn(co, v_2317075_25);
 return;
 }
 case 2:
 {
-Obj v_2316995_25= co->res;
+Obj v_2317069_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2316996_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2316995_25;
+Obj v_2317070_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2317069_25;
 R[2] = v_a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v_2316996_25, closureRef(R[0], 2), v_c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v_2317070_25, closureRef(R[0], 2), v_c);
 return;
 }
 }
@@ -8200,85 +8285,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316639_25 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2316937_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316937_25) {
-Obj v_2316938_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316939_25 = PRIM_ISCONS(v_2316938_25);
-if (True == v_2316939_25) {
-Obj v_2316940_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316941_25 = PRIM_CAR(v_2316940_25);
-Obj v_2316942_25 = PRIM_EQ(getBinding(co, packageID, 89).name, v_2316941_25);
-if (True == v_2316942_25) {
-Obj v_2316943_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316944_25 = PRIM_CDR(v_2316943_25);
-Obj v_exp1 = v_2316944_25;
-Obj v_2316945_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316946_25 = PRIM_ISCONS(v_2316945_25);
-if (True == v_2316946_25) {
-Obj v_2316947_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316948_25 = PRIM_CAR(v_2316947_25);
-Obj v_2316949_25 = PRIM_ISCONS(v_2316948_25);
-if (True == v_2316949_25) {
-Obj v_2316950_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316951_25 = PRIM_CAR(v_2316950_25);
-Obj v_2316952_25 = PRIM_CAR(v_2316951_25);
-Obj v_2316953_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2316952_25);
-if (True == v_2316953_25) {
-Obj v_2316954_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316955_25 = PRIM_CAR(v_2316954_25);
-Obj v_2316956_25 = PRIM_CDR(v_2316955_25);
-Obj v_exp2 = v_2316956_25;
-Obj v_2316957_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2316958_25 = PRIM_CDR(v_2316957_25);
-Obj v_2316959_25 = PRIM_EQ(Nil, v_2316958_25);
-if (True == v_2316959_25) {
-Obj v_2316960_25 = primGenSym(co);
-Obj v_f = v_2316960_25;
-Obj v_2316961_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_exp1);
-Obj v_2316962_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_exp2);
-Obj v_2316963_25 = makeCons(co->gc, v_2316962_25, Nil);
-Obj v_2316964_25 = makeCons(co->gc, v_f, v_2316963_25);
-Obj v_2316965_25 = makeCons(co->gc, v_2316964_25, Nil);
-Obj v_2316966_25 = makeCons(co->gc, v_2316961_25, v_2316965_25);
-Obj v_2316967_25 = makeCons(co->gc, v_f, v_2316966_25);
-Obj v_2316968_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2316967_25);
+Obj v_2316713_25 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317011_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317011_25) {
+Obj v_2317012_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317013_25 = PRIM_ISCONS(v_2317012_25);
+if (True == v_2317013_25) {
+Obj v_2317014_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317015_25 = PRIM_CAR(v_2317014_25);
+Obj v_2317016_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317015_25);
+if (True == v_2317016_25) {
+Obj v_2317017_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317018_25 = PRIM_CDR(v_2317017_25);
+Obj v_exp1 = v_2317018_25;
+Obj v_2317019_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317020_25 = PRIM_ISCONS(v_2317019_25);
+if (True == v_2317020_25) {
+Obj v_2317021_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317022_25 = PRIM_CAR(v_2317021_25);
+Obj v_2317023_25 = PRIM_ISCONS(v_2317022_25);
+if (True == v_2317023_25) {
+Obj v_2317024_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317025_25 = PRIM_CAR(v_2317024_25);
+Obj v_2317026_25 = PRIM_CAR(v_2317025_25);
+Obj v_2317027_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317026_25);
+if (True == v_2317027_25) {
+Obj v_2317028_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317029_25 = PRIM_CAR(v_2317028_25);
+Obj v_2317030_25 = PRIM_CDR(v_2317029_25);
+Obj v_exp2 = v_2317030_25;
+Obj v_2317031_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317032_25 = PRIM_CDR(v_2317031_25);
+Obj v_2317033_25 = PRIM_EQ(Nil, v_2317032_25);
+if (True == v_2317033_25) {
+Obj v_2317034_25 = primGenSym(co);
+Obj v_f = v_2317034_25;
+Obj v_2317035_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_exp1);
+Obj v_2317036_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp2);
+Obj v_2317037_25 = makeCons(co->gc, v_2317036_25, Nil);
+Obj v_2317038_25 = makeCons(co->gc, v_f, v_2317037_25);
+Obj v_2317039_25 = makeCons(co->gc, v_2317038_25, Nil);
+Obj v_2317040_25 = makeCons(co->gc, v_2317035_25, v_2317039_25);
+Obj v_2317041_25 = makeCons(co->gc, v_f, v_2317040_25);
+Obj v_2317042_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317041_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_2316968_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317042_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316639_25);
+coraCall0(co, v_2316713_25);
 return;
 }
 }
@@ -8289,126 +8374,126 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316640_25 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v_2316917_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316917_25) {
-Obj v_2316918_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2316918_25;
-Obj v_2316919_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2316919_25;
+Obj v_2316714_25 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2316991_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316991_25) {
+Obj v_2316992_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2316992_25;
+Obj v_2316993_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2316993_25;
 R[1] = v_op;
 R[2] = v_args;
-R[3] = v_2316640_25;
+R[3] = v_2316714_25;
 saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316640_25);
+coraCall0(co, v_2316714_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2316927_25= co->res;
-Obj v_2316925_25 = R[1];
-Obj v_2316928_25 = makeCons(co->gc, v_2316925_25, v_2316927_25);
-coraReturn(co, v_2316928_25);
+Obj v_2317001_25= co->res;
+Obj v_2316999_25 = R[1];
+Obj v_2317002_25 = makeCons(co->gc, v_2316999_25, v_2317001_25);
+coraReturn(co, v_2317002_25);
 return;
 }
 case 2:
 {
-Obj v_2316926_25= co->res;
+Obj v_2317000_25= co->res;
 Obj v_args = R[1];
-Obj v_2316925_25 = R[2];
-R[1] = v_2316925_25;
+Obj v_2316999_25 = R[2];
+R[1] = v_2316999_25;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2316926_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317000_25, v_args);
 return;
 }
 case 3:
 {
-Obj v_2316933_25= co->res;
+Obj v_2317007_25= co->res;
 Obj v_tmp = R[1];
-Obj v_2316934_25 = makeCons(co->gc, v_2316933_25, Nil);
-Obj v_2316935_25 = makeCons(co->gc, v_tmp, v_2316934_25);
-Obj v_2316936_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2316935_25);
+Obj v_2317008_25 = makeCons(co->gc, v_2317007_25, Nil);
+Obj v_2317009_25 = makeCons(co->gc, v_tmp, v_2317008_25);
+Obj v_2317010_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317009_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v_2316936_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317010_25);
 return;
 }
 case 4:
 {
-Obj v_2316931_25= co->res;
+Obj v_2317005_25= co->res;
 Obj v_op = R[1];
 Obj v_args = R[2];
-Obj v_tmp = v_2316931_25;
-Obj v_2316932_25 = makeCons(co->gc, v_op, v_args);
+Obj v_tmp = v_2317005_25;
+Obj v_2317006_25 = makeCons(co->gc, v_op, v_args);
 R[1] = v_tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), v_2316932_25, v_tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_2317006_25, v_tmp);
 return;
 }
 case 5:
 {
-Obj v_2316922_25= co->res;
+Obj v_2316996_25= co->res;
 Obj v_required = R[1];
 Obj v_op = R[2];
 Obj v_args = R[3];
-Obj v_provided = v_2316922_25;
-Obj v_2316923_25 = PRIM_EQ(v_required, v_provided);
-if (True == v_2316923_25) {
-Obj v_2316924_25 = makeCons(co->gc, v_op, Nil);
-Obj v_2316925_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2316924_25);
+Obj v_provided = v_2316996_25;
+Obj v_2316997_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2316997_25) {
+Obj v_2316998_25 = makeCons(co->gc, v_op, Nil);
+Obj v_2316999_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2316998_25);
 R[1] = v_args;
-R[2] = v_2316925_25;
+R[2] = v_2316999_25;
 saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2316929_25 = PRIM_GT(v_required, v_provided);
-if (True == v_2316929_25) {
-Obj v_2316930_25 = PRIM_SUB(v_required, v_provided);
+Obj v_2317003_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2317003_25) {
+Obj v_2317004_25 = PRIM_SUB(v_required, v_provided);
 R[1] = v_op;
 R[2] = v_args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2316930_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_2317004_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
 case 6:
 {
-Obj v_2316921_25= co->res;
+Obj v_2316995_25= co->res;
 Obj v_op = R[1];
 Obj v_args = R[2];
-Obj v_required = v_2316921_25;
+Obj v_required = v_2316995_25;
 R[1] = v_required;
 R[2] = v_op;
 R[3] = v_args;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_args);
 return;
 }
 case 7:
 {
-Obj v_2316920_25= co->res;
+Obj v_2316994_25= co->res;
 Obj v_op = R[1];
 Obj v_args = R[2];
-Obj v_2316640_25 = R[3];
-if (True == v_2316920_25) {
+Obj v_2316714_25 = R[3];
+if (True == v_2316994_25) {
 R[1] = v_op;
 R[2] = v_args;
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316640_25);
+coraCall0(co, v_2316714_25);
 return;
 }
 }
@@ -8420,14 +8505,14 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj v_2316916_25= co->res;
+Obj v_2316990_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2316916_25, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2316990_25, closureRef(R[0], 2));
 return;
 }
 }
@@ -8437,18 +8522,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316624_25 = R[1];
-Obj v_2316625_25 = R[2];
-Obj v_2316904_25 = PRIM_EQ(MAKE_NUMBER(0), v_2316624_25);
-if (True == v_2316904_25) {
-coraReturn(co, v_2316625_25);
+Obj v_2316698_25 = R[1];
+Obj v_2316699_25 = R[2];
+Obj v_2316978_25 = PRIM_EQ(MAKE_NUMBER(0), v_2316698_25);
+if (True == v_2316978_25) {
+coraReturn(co, v_2316699_25);
 return;
 } else {
-Obj v_2316905_25 = PRIM_SUB(v_2316624_25, MAKE_NUMBER(1));
-Obj v_2316906_25 = primGenSym(co);
-Obj v_2316907_25 = makeCons(co->gc, v_2316906_25, v_2316625_25);
+Obj v_2316979_25 = PRIM_SUB(v_2316698_25, MAKE_NUMBER(1));
+Obj v_2316980_25 = primGenSym(co);
+Obj v_2316981_25 = makeCons(co->gc, v_2316980_25, v_2316699_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2316905_25, v_2316907_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_2316979_25, v_2316981_25);
 return;
 }
 }
@@ -8461,29 +8546,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v_2316902_25= co->res;
+Obj v_2316976_25= co->res;
 Obj v_find = R[1];
-if (True == v_2316902_25) {
+if (True == v_2316976_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2316901_25= co->res;
-Obj v_find = v_2316901_25;
+Obj v_2316975_25= co->res;
+Obj v_find = v_2316975_25;
 R[1] = v_find;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_find);
 return;
 }
 }
@@ -8495,29 +8580,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v_2316899_25= co->res;
+Obj v_2316973_25= co->res;
 Obj v_find = R[1];
-if (True == v_2316899_25) {
+if (True == v_2316973_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2316898_25= co->res;
-Obj v_find = v_2316898_25;
+Obj v_2316972_25= co->res;
+Obj v_find = v_2316972_25;
 R[1] = v_find;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_find);
 return;
 }
 }
@@ -8529,21 +8614,21 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v_2316895_25= co->res;
-Obj v_2316896_25 = primNot(v_2316895_25);
-coraReturn(co, v_2316896_25);
+Obj v_2316969_25= co->res;
+Obj v_2316970_25 = primNot(v_2316969_25);
+coraReturn(co, v_2316970_25);
 return;
 }
 case 2:
 {
-Obj v_2316894_25= co->res;
+Obj v_2316968_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_2316894_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2316968_25);
 return;
 }
 }
@@ -8553,40 +8638,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316620_25 = R[1];
-Obj v_2316621_25 = R[2];
-Obj v_2316818_25 = PRIM_EQ(Nil, v_2316621_25);
-if (True == v_2316818_25) {
+Obj v_2316694_25 = R[1];
+Obj v_2316695_25 = R[2];
+Obj v_2316892_25 = PRIM_EQ(Nil, v_2316695_25);
+if (True == v_2316892_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2316819_25 = PRIM_ISCONS(v_2316621_25);
-if (True == v_2316819_25) {
-Obj v_2316820_25 = PRIM_CAR(v_2316621_25);
-Obj v_hd = v_2316820_25;
-Obj v_2316821_25 = PRIM_CDR(v_2316621_25);
-Obj v_tl = v_2316821_25;
-R[1] = v_2316620_25;
+Obj v_2316893_25 = PRIM_ISCONS(v_2316695_25);
+if (True == v_2316893_25) {
+Obj v_2316894_25 = PRIM_CAR(v_2316695_25);
+Obj v_hd = v_2316894_25;
+Obj v_2316895_25 = PRIM_CDR(v_2316695_25);
+Obj v_tl = v_2316895_25;
+R[1] = v_2316694_25;
 R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_2316620_25, v_hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_2316694_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316822_25= co->res;
-Obj v_2316620_25 = R[1];
+Obj v_2316896_25= co->res;
+Obj v_2316694_25 = R[1];
 Obj v_tl = R[2];
-Obj v_2316823_25 = PRIM_LT(v_2316822_25, MAKE_NUMBER(0));
-if (True == v_2316823_25) {
+Obj v_2316897_25 = PRIM_LT(v_2316896_25, MAKE_NUMBER(0));
+if (True == v_2316897_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v_2316620_25, v_tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_2316694_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8603,7 +8688,7 @@ case 0:
 Obj v_x = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8613,32 +8698,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316614_25 = R[1];
-Obj v_2316615_25 = R[2];
-Obj v_2316616_25 = R[3];
-Obj v_2316807_25 = PRIM_EQ(Nil, v_2316616_25);
-if (True == v_2316807_25) {
+Obj v_2316688_25 = R[1];
+Obj v_2316689_25 = R[2];
+Obj v_2316690_25 = R[3];
+Obj v_2316881_25 = PRIM_EQ(Nil, v_2316690_25);
+if (True == v_2316881_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2316618_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2316616_25, v_2316614_25, v_2316615_25);
-Obj v_2316812_25 = PRIM_ISCONS(v_2316616_25);
-if (True == v_2316812_25) {
-Obj v_2316813_25 = PRIM_CAR(v_2316616_25);
-Obj v_a = v_2316813_25;
-Obj v_2316814_25 = PRIM_CDR(v_2316616_25);
-Obj v_2316815_25 = PRIM_EQ(v_2316615_25, v_a);
-if (True == v_2316815_25) {
-coraReturn(co, v_2316614_25);
+Obj v_2316692_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2316690_25, v_2316688_25, v_2316689_25);
+Obj v_2316886_25 = PRIM_ISCONS(v_2316690_25);
+if (True == v_2316886_25) {
+Obj v_2316887_25 = PRIM_CAR(v_2316690_25);
+Obj v_a = v_2316887_25;
+Obj v_2316888_25 = PRIM_CDR(v_2316690_25);
+Obj v_2316889_25 = PRIM_EQ(v_2316689_25, v_a);
+if (True == v_2316889_25) {
+coraReturn(co, v_2316688_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316618_25);
+coraCall0(co, v_2316692_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316618_25);
+coraCall0(co, v_2316692_25);
 return;
 }
 }
@@ -8650,18 +8735,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316808_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316808_25) {
-Obj v_2316809_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316810_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_b = v_2316810_25;
-Obj v_2316811_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2316882_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316882_25) {
+Obj v_2316883_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316884_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2316884_25;
+Obj v_2316885_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v_2316811_25, closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v_2316885_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8672,39 +8757,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316609_25 = R[1];
-Obj v_2316610_25 = R[2];
-Obj v_2316611_25 = R[3];
-Obj v_2316801_25 = PRIM_EQ(Nil, v_2316611_25);
-if (True == v_2316801_25) {
-coraReturn(co, v_2316610_25);
+Obj v_2316683_25 = R[1];
+Obj v_2316684_25 = R[2];
+Obj v_2316685_25 = R[3];
+Obj v_2316875_25 = PRIM_EQ(Nil, v_2316685_25);
+if (True == v_2316875_25) {
+coraReturn(co, v_2316684_25);
 return;
 } else {
-Obj v_2316802_25 = PRIM_ISCONS(v_2316611_25);
-if (True == v_2316802_25) {
-Obj v_2316803_25 = PRIM_CAR(v_2316611_25);
-Obj v_x = v_2316803_25;
-Obj v_2316804_25 = PRIM_CDR(v_2316611_25);
-Obj v_y = v_2316804_25;
-R[1] = v_2316609_25;
+Obj v_2316876_25 = PRIM_ISCONS(v_2316685_25);
+if (True == v_2316876_25) {
+Obj v_2316877_25 = PRIM_CAR(v_2316685_25);
+Obj v_x = v_2316877_25;
+Obj v_2316878_25 = PRIM_CDR(v_2316685_25);
+Obj v_y = v_2316878_25;
+R[1] = v_2316683_25;
 R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v_2316609_25, v_2316610_25, v_x);
+coraCall2(co, v_2316683_25, v_2316684_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316805_25= co->res;
-Obj v_2316609_25 = R[1];
+Obj v_2316879_25= co->res;
+Obj v_2316683_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v_2316609_25, v_2316805_25, v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v_2316683_25, v_2316879_25, v_y);
 return;
 }
 }
@@ -8714,44 +8799,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316604_25 = R[1];
-Obj v_2316605_25 = R[2];
-Obj v_2316786_25 = PRIM_EQ(Nil, v_2316605_25);
-if (True == v_2316786_25) {
+Obj v_2316678_25 = R[1];
+Obj v_2316679_25 = R[2];
+Obj v_2316860_25 = PRIM_EQ(Nil, v_2316679_25);
+if (True == v_2316860_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2316607_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2316605_25, v_2316604_25);
-Obj v_2316790_25 = PRIM_ISCONS(v_2316605_25);
-if (True == v_2316790_25) {
-Obj v_2316791_25 = PRIM_CAR(v_2316605_25);
-Obj v_2316792_25 = PRIM_ISCONS(v_2316791_25);
-if (True == v_2316792_25) {
-Obj v_2316793_25 = PRIM_CAR(v_2316605_25);
-Obj v_2316794_25 = PRIM_CAR(v_2316793_25);
-Obj v_x = v_2316794_25;
-Obj v_2316795_25 = PRIM_CAR(v_2316605_25);
-Obj v_2316796_25 = PRIM_CDR(v_2316795_25);
-Obj v_y = v_2316796_25;
-Obj v_2316797_25 = PRIM_CDR(v_2316605_25);
-Obj v_2316798_25 = PRIM_EQ(v_2316604_25, v_x);
-if (True == v_2316798_25) {
-Obj v_2316799_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2316799_25);
+Obj v_2316681_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2316679_25, v_2316678_25);
+Obj v_2316864_25 = PRIM_ISCONS(v_2316679_25);
+if (True == v_2316864_25) {
+Obj v_2316865_25 = PRIM_CAR(v_2316679_25);
+Obj v_2316866_25 = PRIM_ISCONS(v_2316865_25);
+if (True == v_2316866_25) {
+Obj v_2316867_25 = PRIM_CAR(v_2316679_25);
+Obj v_2316868_25 = PRIM_CAR(v_2316867_25);
+Obj v_x = v_2316868_25;
+Obj v_2316869_25 = PRIM_CAR(v_2316679_25);
+Obj v_2316870_25 = PRIM_CDR(v_2316869_25);
+Obj v_y = v_2316870_25;
+Obj v_2316871_25 = PRIM_CDR(v_2316679_25);
+Obj v_2316872_25 = PRIM_EQ(v_2316678_25, v_x);
+if (True == v_2316872_25) {
+Obj v_2316873_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2316873_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316607_25);
+coraCall0(co, v_2316681_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316607_25);
+coraCall0(co, v_2316681_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316607_25);
+coraCall0(co, v_2316681_25);
 return;
 }
 }
@@ -8763,17 +8848,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316787_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316787_25) {
-Obj v_2316788_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316789_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2316789_25;
+Obj v_2316861_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316861_25) {
+Obj v_2316862_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316863_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2316863_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 5780cb9..e0a5aa7 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -565,7 +565,7 @@
 	  (generate-str to "}\n\n")
 	  )))
 
-  (defun generate-entry (to globals label)
+  (defun generate-entry (to globals label nframe)
     (begin
      (generate-str to "void entry(struct Cora *co, int label, Obj *R) {\n")
      (generate-str to "if (packageID == -1) { packageID = packageIDAlloc(); }\n")
@@ -582,6 +582,10 @@
 	       (+ acc 1)))
 	    0 globals)
      (generate-str to "addPackage(co, packageID, __symbolTable);\n")
+     ;; the toplevel code runs in a frame of its own
+     (generate-str to "stackAlloc(co, ")
+     (generate-num to nframe)
+     (generate-str to ");\n")
 
      (generate-str to "co->ctx.fn = ")
      (generate-group-name to label)
@@ -599,7 +603,7 @@
 		  (generate-str to ";\n")))
 	       bc)
      (generate-str to "\n\n")
-     (generate-entry to globals (caar bc))
+     (generate-entry to globals (caar bc) (lambda-frame-size (car (cdar bc))))
      (for-each (lambda (group)
 		 (generate-toplevel-lambda to group globals))
 	       bc)))
-- 
2.43.0


From 51e047bc42e65057d1d41a029f68dec0cf23701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 07/53] fix: quoted lists, numbers and strings can be compiled

---
 init.c       | 2918 ++++++++++-----------
 lib/toc.c    | 6989 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |    7 +-
 3 files changed, 4991 insertions(+), 4923 deletions(-)

diff --git a/init.c b/init.c
index 20e072e..78a9d43 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312546_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v_2312549_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v_2312552_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v_2312555_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v_2312558_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v_2312562_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v_2312567_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v_2312571_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2312579_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2312581_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2312586_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2312621_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2312624_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2312627_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2312630_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2312633_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2312637_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2312642_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2312646_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2312654_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2312656_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2312661_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v_2313066_25= co->res;
-Obj v_2313072_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2313084_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v_2313085_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2313086_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313085_25);
-Obj v_2313087_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313086_25);
-Obj v_2313088_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2313089_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313088_25);
-Obj v_2313090_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313089_25);
-Obj v_2313091_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2313092_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313091_25);
-Obj v_2313093_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313092_25);
-Obj v_2313094_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2313095_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313094_25);
-Obj v_2313096_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313095_25);
-Obj v_2313097_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2313098_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313097_25);
-Obj v_2313099_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313098_25);
-Obj v_2313100_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2313101_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313100_25);
-Obj v_2313102_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313101_25);
-Obj v_2313103_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2313104_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313103_25);
-Obj v_2313105_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313104_25);
-Obj v_2313106_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2313107_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313106_25);
-Obj v_2313108_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313107_25);
-Obj v_2313109_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2313110_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313109_25);
-Obj v_2313111_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313110_25);
-Obj v_2313112_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2313113_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313112_25);
-Obj v_2313114_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313113_25);
-Obj v_2313115_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2313116_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313115_25);
-Obj v_2313117_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313116_25);
-Obj v_2313118_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2313119_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313118_25);
-Obj v_2313120_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313119_25);
-Obj v_2313121_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2313122_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313121_25);
-Obj v_2313123_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313122_25);
-Obj v_2313124_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2313125_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313124_25);
-Obj v_2313126_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313125_25);
-Obj v_2313127_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2313128_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313127_25);
-Obj v_2313129_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313128_25);
-Obj v_2313130_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2313131_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313130_25);
-Obj v_2313132_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313131_25);
-Obj v_2313133_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2313134_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313133_25);
-Obj v_2313135_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313134_25);
-Obj v_2313136_25 = makeCons(co->gc, v_2313135_25, Nil);
-Obj v_2313137_25 = makeCons(co->gc, v_2313132_25, v_2313136_25);
-Obj v_2313138_25 = makeCons(co->gc, v_2313129_25, v_2313137_25);
-Obj v_2313139_25 = makeCons(co->gc, v_2313126_25, v_2313138_25);
-Obj v_2313140_25 = makeCons(co->gc, v_2313123_25, v_2313139_25);
-Obj v_2313141_25 = makeCons(co->gc, v_2313120_25, v_2313140_25);
-Obj v_2313142_25 = makeCons(co->gc, v_2313117_25, v_2313141_25);
-Obj v_2313143_25 = makeCons(co->gc, v_2313114_25, v_2313142_25);
-Obj v_2313144_25 = makeCons(co->gc, v_2313111_25, v_2313143_25);
-Obj v_2313145_25 = makeCons(co->gc, v_2313108_25, v_2313144_25);
-Obj v_2313146_25 = makeCons(co->gc, v_2313105_25, v_2313145_25);
-Obj v_2313147_25 = makeCons(co->gc, v_2313102_25, v_2313146_25);
-Obj v_2313148_25 = makeCons(co->gc, v_2313099_25, v_2313147_25);
-Obj v_2313149_25 = makeCons(co->gc, v_2313096_25, v_2313148_25);
-Obj v_2313150_25 = makeCons(co->gc, v_2313093_25, v_2313149_25);
-Obj v_2313151_25 = makeCons(co->gc, v_2313090_25, v_2313150_25);
-Obj v_2313152_25 = makeCons(co->gc, v_2313087_25, v_2313151_25);
-Obj v_2313153_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313152_25);
-Obj v_2313168_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v_2313172_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v_2313350_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v_2313351_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v_2313352_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2313351_25);
-Obj v_2313353_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2313352_25);
-Obj v_2313354_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2313353_25);
-Obj v_2313355_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2313354_25);
-Obj v_2313356_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2313355_25);
-Obj v_2313357_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2313356_25);
-Obj v_2313358_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2313357_25);
-Obj v_2313359_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2313358_25);
-Obj v_2313360_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2313359_25);
-Obj v_2313361_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313360_25);
-Obj v_2313362_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2313361_25);
-Obj v_2313363_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2313362_25);
-Obj v_2313364_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2313363_25);
-Obj v_2313365_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2313364_25);
-Obj v_2313366_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2313365_25);
-Obj v_2313367_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2313366_25);
-Obj v_2313368_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2313367_25);
-Obj v_2313369_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2313368_25);
-Obj v_2313370_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2313369_25);
-Obj v_2313371_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2313370_25);
-Obj v_2313372_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2313371_25);
-Obj v_2313373_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2313372_25);
-Obj v_2313374_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2313373_25);
-Obj v_2313375_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2313374_25);
-Obj v_2313376_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2313375_25);
-Obj v_2313377_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2313376_25);
-Obj v_2313378_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2313377_25);
-Obj v_2313379_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2313378_25);
-Obj v_2313380_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2313379_25);
-Obj v_2313381_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2313380_25);
-Obj v_2313382_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2313381_25);
-Obj v_2313383_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2313382_25);
-Obj v_2313384_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2313383_25);
-Obj v_2313385_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2313384_25);
-Obj v_2313386_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2313385_25);
-Obj v_2313387_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2313386_25);
-Obj v_2313388_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2313387_25);
-Obj v_2313389_25 = primSet(co, getBinding(co, packageID, 53).name, v_2313388_25);
-Obj v_2313390_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v_2313391_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v_2313392_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v_2313393_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v_2313394_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v_2313395_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v_2313396_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v_2313397_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v_2313398_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v_2313399_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v_2313400_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v_2313401_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v_2313402_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v_2313403_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v_2313404_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v_2313405_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v_2313406_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v_2313407_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v_2313408_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v_2313409_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v_2313410_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v_2313411_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v_2313412_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v_2313413_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v_2313414_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v_2313415_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v_2313416_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v_2313417_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v_2313418_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v_2313419_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v_2313420_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v_2313421_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v_2313422_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v_2313423_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v_2313424_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v_2313425_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v_2313426_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v_2313427_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v_2313428_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v_2313428_25);
+Obj v_2313141_25= co->res;
+Obj v_2313147_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2313159_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v_2313160_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2313161_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313160_25);
+Obj v_2313162_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313161_25);
+Obj v_2313163_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2313164_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313163_25);
+Obj v_2313165_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313164_25);
+Obj v_2313166_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2313167_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313166_25);
+Obj v_2313168_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313167_25);
+Obj v_2313169_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2313170_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313169_25);
+Obj v_2313171_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313170_25);
+Obj v_2313172_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2313173_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313172_25);
+Obj v_2313174_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313173_25);
+Obj v_2313175_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2313176_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313175_25);
+Obj v_2313177_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313176_25);
+Obj v_2313178_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2313179_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313178_25);
+Obj v_2313180_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313179_25);
+Obj v_2313181_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2313182_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313181_25);
+Obj v_2313183_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313182_25);
+Obj v_2313184_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2313185_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313184_25);
+Obj v_2313186_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313185_25);
+Obj v_2313187_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2313188_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313187_25);
+Obj v_2313189_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313188_25);
+Obj v_2313190_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2313191_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313190_25);
+Obj v_2313192_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313191_25);
+Obj v_2313193_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2313194_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313193_25);
+Obj v_2313195_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313194_25);
+Obj v_2313196_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2313197_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313196_25);
+Obj v_2313198_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313197_25);
+Obj v_2313199_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2313200_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313199_25);
+Obj v_2313201_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313200_25);
+Obj v_2313202_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2313203_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313202_25);
+Obj v_2313204_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313203_25);
+Obj v_2313205_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2313206_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313205_25);
+Obj v_2313207_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313206_25);
+Obj v_2313208_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2313209_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313208_25);
+Obj v_2313210_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313209_25);
+Obj v_2313211_25 = makeCons(co->gc, v_2313210_25, Nil);
+Obj v_2313212_25 = makeCons(co->gc, v_2313207_25, v_2313211_25);
+Obj v_2313213_25 = makeCons(co->gc, v_2313204_25, v_2313212_25);
+Obj v_2313214_25 = makeCons(co->gc, v_2313201_25, v_2313213_25);
+Obj v_2313215_25 = makeCons(co->gc, v_2313198_25, v_2313214_25);
+Obj v_2313216_25 = makeCons(co->gc, v_2313195_25, v_2313215_25);
+Obj v_2313217_25 = makeCons(co->gc, v_2313192_25, v_2313216_25);
+Obj v_2313218_25 = makeCons(co->gc, v_2313189_25, v_2313217_25);
+Obj v_2313219_25 = makeCons(co->gc, v_2313186_25, v_2313218_25);
+Obj v_2313220_25 = makeCons(co->gc, v_2313183_25, v_2313219_25);
+Obj v_2313221_25 = makeCons(co->gc, v_2313180_25, v_2313220_25);
+Obj v_2313222_25 = makeCons(co->gc, v_2313177_25, v_2313221_25);
+Obj v_2313223_25 = makeCons(co->gc, v_2313174_25, v_2313222_25);
+Obj v_2313224_25 = makeCons(co->gc, v_2313171_25, v_2313223_25);
+Obj v_2313225_25 = makeCons(co->gc, v_2313168_25, v_2313224_25);
+Obj v_2313226_25 = makeCons(co->gc, v_2313165_25, v_2313225_25);
+Obj v_2313227_25 = makeCons(co->gc, v_2313162_25, v_2313226_25);
+Obj v_2313228_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313227_25);
+Obj v_2313243_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v_2313247_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v_2313425_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v_2313426_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2313427_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2313426_25);
+Obj v_2313428_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2313427_25);
+Obj v_2313429_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2313428_25);
+Obj v_2313430_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2313429_25);
+Obj v_2313431_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2313430_25);
+Obj v_2313432_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2313431_25);
+Obj v_2313433_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2313432_25);
+Obj v_2313434_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2313433_25);
+Obj v_2313435_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2313434_25);
+Obj v_2313436_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313435_25);
+Obj v_2313437_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2313436_25);
+Obj v_2313438_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2313437_25);
+Obj v_2313439_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2313438_25);
+Obj v_2313440_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2313439_25);
+Obj v_2313441_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2313440_25);
+Obj v_2313442_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2313441_25);
+Obj v_2313443_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2313442_25);
+Obj v_2313444_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2313443_25);
+Obj v_2313445_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2313444_25);
+Obj v_2313446_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2313445_25);
+Obj v_2313447_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2313446_25);
+Obj v_2313448_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2313447_25);
+Obj v_2313449_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2313448_25);
+Obj v_2313450_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2313449_25);
+Obj v_2313451_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2313450_25);
+Obj v_2313452_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2313451_25);
+Obj v_2313453_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2313452_25);
+Obj v_2313454_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2313453_25);
+Obj v_2313455_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2313454_25);
+Obj v_2313456_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2313455_25);
+Obj v_2313457_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2313456_25);
+Obj v_2313458_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2313457_25);
+Obj v_2313459_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2313458_25);
+Obj v_2313460_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2313459_25);
+Obj v_2313461_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2313460_25);
+Obj v_2313462_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2313461_25);
+Obj v_2313463_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2313462_25);
+Obj v_2313464_25 = primSet(co, getBinding(co, packageID, 53).name, v_2313463_25);
+Obj v_2313465_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2313466_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2313467_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2313468_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2313469_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2313470_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2313471_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v_2313472_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v_2313473_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v_2313474_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v_2313475_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2313476_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2313477_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2313478_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2313479_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2313480_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2313481_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2313482_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2313483_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2313484_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2313485_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2313486_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2313487_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2313488_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2313489_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2313490_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2313491_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2313492_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2313493_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2313494_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2313495_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2313496_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v_2313497_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2313498_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v_2313499_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2313500_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2313501_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2313502_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2313503_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2313503_25);
 return;
 }
 case 2:
 {
-Obj v_2313016_25= co->res;
-Obj v_2313045_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v_2313046_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2313091_25= co->res;
+Obj v_2313120_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v_2313121_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2312999_25= co->res;
-Obj v_2313013_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2313074_25= co->res;
+Obj v_2313088_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v_2312977_25= co->res;
-Obj v_2312997_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2313052_25= co->res;
+Obj v_2313072_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v_2312946_25= co->res;
-Obj v_2312947_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v_2312948_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v_2312951_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v_2312975_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v_2313021_25= co->res;
+Obj v_2313022_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v_2313023_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v_2313026_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v_2313050_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v_2312838_25= co->res;
-Obj v_2312890_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v_2312891_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2312896_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v_2312900_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v_2312901_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2312909_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v_2312910_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2312916_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2312927_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v_2312933_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v_2312913_25= co->res;
+Obj v_2312965_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v_2312966_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2312971_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v_2312975_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v_2312976_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2312984_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v_2312985_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2312991_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2313002_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2313008_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v_2312733_25= co->res;
-Obj v_2312755_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v_2312788_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v_2312801_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v_2312823_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v_2312837_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v_2312808_25= co->res;
+Obj v_2312830_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2312863_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2312876_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2312898_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2312912_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v_2312718_25= co->res;
-Obj v_2312721_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2312731_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v_2312793_25= co->res;
+Obj v_2312796_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2312806_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v_2312704_25= co->res;
-Obj v_2312716_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v_2312779_25= co->res;
+Obj v_2312791_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v_2312690_25= co->res;
-Obj v_2312702_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v_2312765_25= co->res;
+Obj v_2312777_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v_2312676_25= co->res;
+Obj v_2312751_25= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v_2312654_25= co->res;
-Obj v_2312659_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v_2312662_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v_2312674_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v_2312729_25= co->res;
+Obj v_2312734_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2312737_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2312749_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v_2312644_25= co->res;
+Obj v_2312719_25= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v_2312642_25= co->res;
+Obj v_2312717_25= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v_2312587_25= co->res;
-Obj v_2312588_25 = primSet(co, getBinding(co, packageID, 149).name, v_2312587_25);
-Obj v_2312594_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v_2312595_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v_2312596_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v_2312597_25 = primGenSym(co);
-Obj v_2312598_25 = primSet(co, getBinding(co, packageID, 145).name, v_2312597_25);
-Obj v_2312602_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v_2312611_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v_2312612_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v_2312629_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v_2312630_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v_2312641_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v_2312662_25= co->res;
+Obj v_2312663_25 = primSet(co, getBinding(co, packageID, 149).name, v_2312662_25);
+Obj v_2312669_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2312670_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2312671_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v_2312672_25 = primGenSym(co);
+Obj v_2312673_25 = primSet(co, getBinding(co, packageID, 145).name, v_2312672_25);
+Obj v_2312677_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2312686_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2312687_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2312704_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2312705_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v_2312716_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312517_25 = R[1];
-Obj v_2312518_25 = R[2];
-Obj v_2312519_25 = R[3];
-Obj v_2312520_25 = R[4];
-Obj v_2312541_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2312517_25, v_2312518_25, v_2312519_25, v_2312520_25);
-R[1] = v_2312520_25;
-R[2] = v_2312541_25;
+Obj v_2312592_25 = R[1];
+Obj v_2312593_25 = R[2];
+Obj v_2312594_25 = R[3];
+Obj v_2312595_25 = R[4];
+Obj v_2312616_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2312592_25, v_2312593_25, v_2312594_25, v_2312595_25);
+R[1] = v_2312595_25;
+R[2] = v_2312616_25;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2312520_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2312595_25);
 return;
 }
 case 1:
 {
-Obj v_2313349_25= co->res;
-Obj v_2312541_25 = R[1];
-if (True == v_2313349_25) {
+Obj v_2313424_25= co->res;
+Obj v_2312616_25 = R[1];
+if (True == v_2313424_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312541_25, True);
+coraCall1(co, v_2312616_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312541_25, False);
+coraCall1(co, v_2312616_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313348_25= co->res;
-Obj v_2312520_25 = R[1];
-Obj v_2312541_25 = R[2];
-if (True == v_2313348_25) {
+Obj v_2313423_25= co->res;
+Obj v_2312595_25 = R[1];
+Obj v_2312616_25 = R[2];
+if (True == v_2313423_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312541_25, True);
+coraCall1(co, v_2312616_25, True);
 return;
 } else {
-R[1] = v_2312541_25;
+R[1] = v_2312616_25;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312520_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312595_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2313346_25= co->res;
-Obj v_2312520_25 = R[1];
-Obj v_2312541_25 = R[2];
-if (True == v_2313346_25) {
+Obj v_2313421_25= co->res;
+Obj v_2312595_25 = R[1];
+Obj v_2312616_25 = R[2];
+if (True == v_2313421_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312541_25, True);
+coraCall1(co, v_2312616_25, True);
 return;
 } else {
-Obj v_2313347_25 = primIsString(v_2312520_25);
-if (True == v_2313347_25) {
+Obj v_2313422_25 = primIsString(v_2312595_25);
+if (True == v_2313422_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312541_25, True);
+coraCall1(co, v_2312616_25, True);
 return;
 } else {
-R[1] = v_2312520_25;
-R[2] = v_2312541_25;
+R[1] = v_2312595_25;
+R[2] = v_2312616_25;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2312520_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2312595_25);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312542_25 = R[1];
-if (True == v_2312542_25) {
+Obj v_2312617_25 = R[1];
+if (True == v_2312617_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v_2312522_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2313334_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2313334_25) {
-Obj v_2313335_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2313336_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2313335_25);
-if (True == v_2313336_25) {
-Obj v_2313337_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313338_25 = PRIM_ISCONS(v_2313337_25);
-if (True == v_2313338_25) {
-Obj v_2313339_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313340_25 = PRIM_CAR(v_2313339_25);
-Obj v_x = v_2313340_25;
-Obj v_2313341_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313342_25 = PRIM_CDR(v_2313341_25);
-Obj v_2313343_25 = PRIM_EQ(Nil, v_2313342_25);
-if (True == v_2313343_25) {
-Obj v_2313344_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2313345_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313344_25);
-coraReturn(co, v_2313345_25);
+Obj v_2312597_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2313409_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2313409_25) {
+Obj v_2313410_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2313411_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2313410_25);
+if (True == v_2313411_25) {
+Obj v_2313412_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313413_25 = PRIM_ISCONS(v_2313412_25);
+if (True == v_2313413_25) {
+Obj v_2313414_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313415_25 = PRIM_CAR(v_2313414_25);
+Obj v_x = v_2313415_25;
+Obj v_2313416_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2313417_25 = PRIM_CDR(v_2313416_25);
+Obj v_2313418_25 = PRIM_EQ(Nil, v_2313417_25);
+if (True == v_2313418_25) {
+Obj v_2313419_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2313420_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313419_25);
+coraReturn(co, v_2313420_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312522_25);
+coraCall0(co, v_2312597_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312522_25);
+coraCall0(co, v_2312597_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312522_25);
+coraCall0(co, v_2312597_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312522_25);
+coraCall0(co, v_2312597_25);
 return;
 }
 }
@@ -721,37 +721,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313173_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2313173_25) {
+Obj v_2313248_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2313248_25) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2312524_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313312_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313312_25) {
-Obj v_2313313_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313314_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2313313_25);
-if (True == v_2313314_25) {
-Obj v_2313315_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313316_25 = PRIM_ISCONS(v_2313315_25);
-if (True == v_2313316_25) {
-Obj v_2313317_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313318_25 = PRIM_CAR(v_2313317_25);
-Obj v_args = v_2313318_25;
-Obj v_2313319_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313320_25 = PRIM_CDR(v_2313319_25);
-Obj v_2313321_25 = PRIM_ISCONS(v_2313320_25);
-if (True == v_2313321_25) {
-Obj v_2313322_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313323_25 = PRIM_CDR(v_2313322_25);
-Obj v_2313324_25 = PRIM_CAR(v_2313323_25);
-Obj v_body = v_2313324_25;
-Obj v_2313325_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313326_25 = PRIM_CDR(v_2313325_25);
-Obj v_2313327_25 = PRIM_CDR(v_2313326_25);
-Obj v_2313328_25 = PRIM_EQ(Nil, v_2313327_25);
-if (True == v_2313328_25) {
+Obj v_2312599_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313387_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313387_25) {
+Obj v_2313388_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313389_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2313388_25);
+if (True == v_2313389_25) {
+Obj v_2313390_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313391_25 = PRIM_ISCONS(v_2313390_25);
+if (True == v_2313391_25) {
+Obj v_2313392_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313393_25 = PRIM_CAR(v_2313392_25);
+Obj v_args = v_2313393_25;
+Obj v_2313394_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313395_25 = PRIM_CDR(v_2313394_25);
+Obj v_2313396_25 = PRIM_ISCONS(v_2313395_25);
+if (True == v_2313396_25) {
+Obj v_2313397_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313398_25 = PRIM_CDR(v_2313397_25);
+Obj v_2313399_25 = PRIM_CAR(v_2313398_25);
+Obj v_body = v_2313399_25;
+Obj v_2313400_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313401_25 = PRIM_CDR(v_2313400_25);
+Obj v_2313402_25 = PRIM_CDR(v_2313401_25);
+Obj v_2313403_25 = PRIM_EQ(Nil, v_2313402_25);
+if (True == v_2313403_25) {
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun92, 4, R);
@@ -759,35 +759,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312524_25);
+coraCall0(co, v_2312599_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312524_25);
+coraCall0(co, v_2312599_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312524_25);
+coraCall0(co, v_2312599_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312524_25);
+coraCall0(co, v_2312599_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312524_25);
+coraCall0(co, v_2312599_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313175_25= co->res;
-if (True == v_2313175_25) {
+Obj v_2313250_25= co->res;
+if (True == v_2313250_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj v_2313174_25= co->res;
-if (True == v_2313174_25) {
+Obj v_2313249_25= co->res;
+if (True == v_2313249_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj v_2313330_25= co->res;
+Obj v_2313405_25= co->res;
 Obj v_args = R[1];
-Obj v_2313331_25 = makeCons(co->gc, v_2313330_25, Nil);
-Obj v_2313332_25 = makeCons(co->gc, v_args, v_2313331_25);
-Obj v_2313333_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313332_25);
-coraReturn(co, v_2313333_25);
+Obj v_2313406_25 = makeCons(co->gc, v_2313405_25, Nil);
+Obj v_2313407_25 = makeCons(co->gc, v_args, v_2313406_25);
+Obj v_2313408_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313407_25);
+coraReturn(co, v_2313408_25);
 return;
 }
 case 4:
 {
-Obj v_2313329_25= co->res;
+Obj v_2313404_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313329_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313404_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312525_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313268_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313268_25) {
-Obj v_2313269_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313270_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313269_25);
-if (True == v_2313270_25) {
-Obj v_2313271_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313272_25 = PRIM_ISCONS(v_2313271_25);
-if (True == v_2313272_25) {
-Obj v_2313273_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313274_25 = PRIM_CAR(v_2313273_25);
-Obj v_2313275_25 = PRIM_ISCONS(v_2313274_25);
-if (True == v_2313275_25) {
-Obj v_2313276_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313277_25 = PRIM_CAR(v_2313276_25);
-Obj v_2313278_25 = PRIM_CAR(v_2313277_25);
-Obj v_2313279_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313278_25);
-if (True == v_2313279_25) {
-Obj v_2313280_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313281_25 = PRIM_CAR(v_2313280_25);
-Obj v_2313282_25 = PRIM_CDR(v_2313281_25);
-Obj v_2313283_25 = PRIM_ISCONS(v_2313282_25);
-if (True == v_2313283_25) {
-Obj v_2313284_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313285_25 = PRIM_CAR(v_2313284_25);
-Obj v_2313286_25 = PRIM_CDR(v_2313285_25);
-Obj v_2313287_25 = PRIM_CAR(v_2313286_25);
-Obj v_pkg = v_2313287_25;
-Obj v_2313288_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313289_25 = PRIM_CAR(v_2313288_25);
-Obj v_2313290_25 = PRIM_CDR(v_2313289_25);
-Obj v_2313291_25 = PRIM_CDR(v_2313290_25);
-Obj v_2313292_25 = PRIM_EQ(Nil, v_2313291_25);
-if (True == v_2313292_25) {
-Obj v_2313293_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313294_25 = PRIM_CDR(v_2313293_25);
-Obj v_2313295_25 = PRIM_ISCONS(v_2313294_25);
-if (True == v_2313295_25) {
-Obj v_2313296_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313297_25 = PRIM_CDR(v_2313296_25);
-Obj v_2313298_25 = PRIM_CAR(v_2313297_25);
-Obj v_y = v_2313298_25;
-Obj v_2313299_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313300_25 = PRIM_CDR(v_2313299_25);
-Obj v_2313301_25 = PRIM_CDR(v_2313300_25);
-Obj v_2313302_25 = PRIM_EQ(Nil, v_2313301_25);
-if (True == v_2313302_25) {
-Obj v_2313303_25 = primIsString(v_pkg);
-if (True == v_2313303_25) {
-Obj v_2313304_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2313305_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313304_25);
+Obj v_2312600_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313343_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313343_25) {
+Obj v_2313344_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313345_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313344_25);
+if (True == v_2313345_25) {
+Obj v_2313346_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313347_25 = PRIM_ISCONS(v_2313346_25);
+if (True == v_2313347_25) {
+Obj v_2313348_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313349_25 = PRIM_CAR(v_2313348_25);
+Obj v_2313350_25 = PRIM_ISCONS(v_2313349_25);
+if (True == v_2313350_25) {
+Obj v_2313351_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313352_25 = PRIM_CAR(v_2313351_25);
+Obj v_2313353_25 = PRIM_CAR(v_2313352_25);
+Obj v_2313354_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313353_25);
+if (True == v_2313354_25) {
+Obj v_2313355_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313356_25 = PRIM_CAR(v_2313355_25);
+Obj v_2313357_25 = PRIM_CDR(v_2313356_25);
+Obj v_2313358_25 = PRIM_ISCONS(v_2313357_25);
+if (True == v_2313358_25) {
+Obj v_2313359_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313360_25 = PRIM_CAR(v_2313359_25);
+Obj v_2313361_25 = PRIM_CDR(v_2313360_25);
+Obj v_2313362_25 = PRIM_CAR(v_2313361_25);
+Obj v_pkg = v_2313362_25;
+Obj v_2313363_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313364_25 = PRIM_CAR(v_2313363_25);
+Obj v_2313365_25 = PRIM_CDR(v_2313364_25);
+Obj v_2313366_25 = PRIM_CDR(v_2313365_25);
+Obj v_2313367_25 = PRIM_EQ(Nil, v_2313366_25);
+if (True == v_2313367_25) {
+Obj v_2313368_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313369_25 = PRIM_CDR(v_2313368_25);
+Obj v_2313370_25 = PRIM_ISCONS(v_2313369_25);
+if (True == v_2313370_25) {
+Obj v_2313371_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313372_25 = PRIM_CDR(v_2313371_25);
+Obj v_2313373_25 = PRIM_CAR(v_2313372_25);
+Obj v_y = v_2313373_25;
+Obj v_2313374_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313375_25 = PRIM_CDR(v_2313374_25);
+Obj v_2313376_25 = PRIM_CDR(v_2313375_25);
+Obj v_2313377_25 = PRIM_EQ(Nil, v_2313376_25);
+if (True == v_2313377_25) {
+Obj v_2313378_25 = primIsString(v_pkg);
+if (True == v_2313378_25) {
+Obj v_2313379_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2313380_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313379_25);
 R[1] = v_pkg;
 R[2] = v_y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2313305_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2313380_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312525_25);
+coraCall0(co, v_2312600_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313308_25= co->res;
-Obj v_2313306_25 = R[1];
-Obj v_2313309_25 = makeCons(co->gc, v_2313308_25, Nil);
-Obj v_2313310_25 = makeCons(co->gc, v_2313306_25, v_2313309_25);
-Obj v_2313311_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313310_25);
-coraReturn(co, v_2313311_25);
+Obj v_2313383_25= co->res;
+Obj v_2313381_25 = R[1];
+Obj v_2313384_25 = makeCons(co->gc, v_2313383_25, Nil);
+Obj v_2313385_25 = makeCons(co->gc, v_2313381_25, v_2313384_25);
+Obj v_2313386_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313385_25);
+coraReturn(co, v_2313386_25);
 return;
 }
 case 2:
 {
-Obj v_2313306_25= co->res;
+Obj v_2313381_25= co->res;
 Obj v_pkg = R[1];
 Obj v_y = R[2];
-Obj v_2313307_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
-R[1] = v_2313306_25;
+Obj v_2313382_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2313381_25;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2313307_25, v_y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2313382_25, v_y);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312526_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313260_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313260_25) {
-Obj v_2313261_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2313261_25;
-Obj v_2313262_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2313262_25;
-Obj v_2312543_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2312526_25);
-Obj v_2313266_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
-if (True == v_2313266_25) {
+Obj v_2312601_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313335_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313335_25) {
+Obj v_2313336_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2313336_25;
+Obj v_2313337_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2313337_25;
+Obj v_2312618_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2312601_25);
+Obj v_2313341_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
+if (True == v_2313341_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312543_25, True);
+coraCall1(co, v_2312618_25, True);
 return;
 } else {
-Obj v_2313267_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
-if (True == v_2313267_25) {
+Obj v_2313342_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2313342_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312543_25, True);
+coraCall1(co, v_2312618_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312543_25, False);
+coraCall1(co, v_2312618_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312526_25);
+coraCall0(co, v_2312601_25);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312544_25 = R[1];
-if (True == v_2312544_25) {
+Obj v_2312619_25 = R[1];
+if (True == v_2312619_25) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj v_2313264_25= co->res;
-Obj v_2313265_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313264_25);
-coraReturn(co, v_2313265_25);
+Obj v_2313339_25= co->res;
+Obj v_2313340_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313339_25);
+coraReturn(co, v_2313340_25);
 return;
 }
 case 2:
 {
-Obj v_2313263_25= co->res;
+Obj v_2313338_25= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313263_25, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313338_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,42 +1040,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312527_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313227_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313227_25) {
-Obj v_2313228_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313229_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313228_25);
-if (True == v_2313229_25) {
-Obj v_2313230_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313231_25 = PRIM_ISCONS(v_2313230_25);
-if (True == v_2313231_25) {
-Obj v_2313232_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313233_25 = PRIM_CAR(v_2313232_25);
-Obj v_a = v_2313233_25;
-Obj v_2313234_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313235_25 = PRIM_CDR(v_2313234_25);
-Obj v_2313236_25 = PRIM_ISCONS(v_2313235_25);
-if (True == v_2313236_25) {
-Obj v_2313237_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313238_25 = PRIM_CDR(v_2313237_25);
-Obj v_2313239_25 = PRIM_CAR(v_2313238_25);
-Obj v_b = v_2313239_25;
-Obj v_2313240_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313241_25 = PRIM_CDR(v_2313240_25);
-Obj v_2313242_25 = PRIM_CDR(v_2313241_25);
-Obj v_2313243_25 = PRIM_ISCONS(v_2313242_25);
-if (True == v_2313243_25) {
-Obj v_2313244_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313245_25 = PRIM_CDR(v_2313244_25);
-Obj v_2313246_25 = PRIM_CDR(v_2313245_25);
-Obj v_2313247_25 = PRIM_CAR(v_2313246_25);
-Obj v_c = v_2313247_25;
-Obj v_2313248_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313249_25 = PRIM_CDR(v_2313248_25);
-Obj v_2313250_25 = PRIM_CDR(v_2313249_25);
-Obj v_2313251_25 = PRIM_CDR(v_2313250_25);
-Obj v_2313252_25 = PRIM_EQ(Nil, v_2313251_25);
-if (True == v_2313252_25) {
+Obj v_2312602_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313302_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313302_25) {
+Obj v_2313303_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313304_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313303_25);
+if (True == v_2313304_25) {
+Obj v_2313305_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313306_25 = PRIM_ISCONS(v_2313305_25);
+if (True == v_2313306_25) {
+Obj v_2313307_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313308_25 = PRIM_CAR(v_2313307_25);
+Obj v_a = v_2313308_25;
+Obj v_2313309_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313310_25 = PRIM_CDR(v_2313309_25);
+Obj v_2313311_25 = PRIM_ISCONS(v_2313310_25);
+if (True == v_2313311_25) {
+Obj v_2313312_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313313_25 = PRIM_CDR(v_2313312_25);
+Obj v_2313314_25 = PRIM_CAR(v_2313313_25);
+Obj v_b = v_2313314_25;
+Obj v_2313315_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313316_25 = PRIM_CDR(v_2313315_25);
+Obj v_2313317_25 = PRIM_CDR(v_2313316_25);
+Obj v_2313318_25 = PRIM_ISCONS(v_2313317_25);
+if (True == v_2313318_25) {
+Obj v_2313319_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313320_25 = PRIM_CDR(v_2313319_25);
+Obj v_2313321_25 = PRIM_CDR(v_2313320_25);
+Obj v_2313322_25 = PRIM_CAR(v_2313321_25);
+Obj v_c = v_2313322_25;
+Obj v_2313323_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313324_25 = PRIM_CDR(v_2313323_25);
+Obj v_2313325_25 = PRIM_CDR(v_2313324_25);
+Obj v_2313326_25 = PRIM_CDR(v_2313325_25);
+Obj v_2313327_25 = PRIM_EQ(Nil, v_2313326_25);
+if (True == v_2313327_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun88, 2, R);
@@ -1083,57 +1083,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312527_25);
+coraCall0(co, v_2312602_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312527_25);
+coraCall0(co, v_2312602_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312527_25);
+coraCall0(co, v_2312602_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312527_25);
+coraCall0(co, v_2312602_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312527_25);
+coraCall0(co, v_2312602_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312527_25);
+coraCall0(co, v_2312602_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313255_25= co->res;
-Obj v_2313253_25 = R[1];
+Obj v_2313330_25= co->res;
+Obj v_2313328_25 = R[1];
 Obj v_a = R[2];
-Obj v_2313256_25 = makeCons(co->gc, v_2313255_25, Nil);
-Obj v_2313257_25 = makeCons(co->gc, v_2313253_25, v_2313256_25);
-Obj v_2313258_25 = makeCons(co->gc, v_a, v_2313257_25);
-Obj v_2313259_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313258_25);
-coraReturn(co, v_2313259_25);
+Obj v_2313331_25 = makeCons(co->gc, v_2313330_25, Nil);
+Obj v_2313332_25 = makeCons(co->gc, v_2313328_25, v_2313331_25);
+Obj v_2313333_25 = makeCons(co->gc, v_a, v_2313332_25);
+Obj v_2313334_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313333_25);
+coraReturn(co, v_2313334_25);
 return;
 }
 case 2:
 {
-Obj v_2313253_25= co->res;
+Obj v_2313328_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2313254_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2313253_25;
+Obj v_2313329_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2313328_25;
 R[2] = v_a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313254_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313329_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312528_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313201_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2313201_25) {
-Obj v_2313202_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2313203_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313202_25);
-if (True == v_2313203_25) {
-Obj v_2313204_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313205_25 = PRIM_ISCONS(v_2313204_25);
-if (True == v_2313205_25) {
-Obj v_2313206_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313207_25 = PRIM_CAR(v_2313206_25);
-Obj v_path = v_2313207_25;
-Obj v_2313208_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313209_25 = PRIM_CDR(v_2313208_25);
-Obj v_2313210_25 = PRIM_ISCONS(v_2313209_25);
-if (True == v_2313210_25) {
-Obj v_2313211_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313212_25 = PRIM_CDR(v_2313211_25);
-Obj v_2313213_25 = PRIM_CAR(v_2313212_25);
-Obj v_import = v_2313213_25;
-Obj v_2313214_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313215_25 = PRIM_CDR(v_2313214_25);
-Obj v_2313216_25 = PRIM_CDR(v_2313215_25);
-Obj v_2313217_25 = PRIM_ISCONS(v_2313216_25);
-if (True == v_2313217_25) {
-Obj v_2313218_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313219_25 = PRIM_CDR(v_2313218_25);
-Obj v_2313220_25 = PRIM_CDR(v_2313219_25);
-Obj v_2313221_25 = PRIM_CAR(v_2313220_25);
-Obj v_body = v_2313221_25;
-Obj v_2313222_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313223_25 = PRIM_CDR(v_2313222_25);
-Obj v_2313224_25 = PRIM_CDR(v_2313223_25);
-Obj v_2313225_25 = PRIM_CDR(v_2313224_25);
-Obj v_2313226_25 = PRIM_EQ(Nil, v_2313225_25);
-if (True == v_2313226_25) {
+Obj v_2312603_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313276_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2313276_25) {
+Obj v_2313277_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2313278_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313277_25);
+if (True == v_2313278_25) {
+Obj v_2313279_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313280_25 = PRIM_ISCONS(v_2313279_25);
+if (True == v_2313280_25) {
+Obj v_2313281_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313282_25 = PRIM_CAR(v_2313281_25);
+Obj v_path = v_2313282_25;
+Obj v_2313283_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313284_25 = PRIM_CDR(v_2313283_25);
+Obj v_2313285_25 = PRIM_ISCONS(v_2313284_25);
+if (True == v_2313285_25) {
+Obj v_2313286_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313287_25 = PRIM_CDR(v_2313286_25);
+Obj v_2313288_25 = PRIM_CAR(v_2313287_25);
+Obj v_import = v_2313288_25;
+Obj v_2313289_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313290_25 = PRIM_CDR(v_2313289_25);
+Obj v_2313291_25 = PRIM_CDR(v_2313290_25);
+Obj v_2313292_25 = PRIM_ISCONS(v_2313291_25);
+if (True == v_2313292_25) {
+Obj v_2313293_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313294_25 = PRIM_CDR(v_2313293_25);
+Obj v_2313295_25 = PRIM_CDR(v_2313294_25);
+Obj v_2313296_25 = PRIM_CAR(v_2313295_25);
+Obj v_body = v_2313296_25;
+Obj v_2313297_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313298_25 = PRIM_CDR(v_2313297_25);
+Obj v_2313299_25 = PRIM_CDR(v_2313298_25);
+Obj v_2313300_25 = PRIM_CDR(v_2313299_25);
+Obj v_2313301_25 = PRIM_EQ(Nil, v_2313300_25);
+if (True == v_2313301_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312528_25);
+coraCall0(co, v_2312603_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312528_25);
+coraCall0(co, v_2312603_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312528_25);
+coraCall0(co, v_2312603_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312528_25);
+coraCall0(co, v_2312603_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312528_25);
+coraCall0(co, v_2312603_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312528_25);
+coraCall0(co, v_2312603_25);
 return;
 }
 }
@@ -1220,79 +1220,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312529_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v_2313177_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313177_25) {
-Obj v_2313178_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313179_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313178_25);
-if (True == v_2313179_25) {
-Obj v_2313180_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313181_25 = PRIM_ISCONS(v_2313180_25);
-if (True == v_2313181_25) {
-Obj v_2313182_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313183_25 = PRIM_CAR(v_2313182_25);
-Obj v_var = v_2313183_25;
-Obj v_2313184_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313185_25 = PRIM_CDR(v_2313184_25);
-Obj v_2313186_25 = PRIM_ISCONS(v_2313185_25);
-if (True == v_2313186_25) {
-Obj v_2313187_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313188_25 = PRIM_CDR(v_2313187_25);
-Obj v_2313189_25 = PRIM_CAR(v_2313188_25);
-Obj v_val = v_2313189_25;
-Obj v_2313190_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313191_25 = PRIM_CDR(v_2313190_25);
-Obj v_2313192_25 = PRIM_CDR(v_2313191_25);
-Obj v_2313193_25 = PRIM_EQ(Nil, v_2313192_25);
-if (True == v_2313193_25) {
+Obj v_2312604_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2313252_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313252_25) {
+Obj v_2313253_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313254_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313253_25);
+if (True == v_2313254_25) {
+Obj v_2313255_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313256_25 = PRIM_ISCONS(v_2313255_25);
+if (True == v_2313256_25) {
+Obj v_2313257_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313258_25 = PRIM_CAR(v_2313257_25);
+Obj v_var = v_2313258_25;
+Obj v_2313259_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313260_25 = PRIM_CDR(v_2313259_25);
+Obj v_2313261_25 = PRIM_ISCONS(v_2313260_25);
+if (True == v_2313261_25) {
+Obj v_2313262_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313263_25 = PRIM_CDR(v_2313262_25);
+Obj v_2313264_25 = PRIM_CAR(v_2313263_25);
+Obj v_val = v_2313264_25;
+Obj v_2313265_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313266_25 = PRIM_CDR(v_2313265_25);
+Obj v_2313267_25 = PRIM_CDR(v_2313266_25);
+Obj v_2313268_25 = PRIM_EQ(Nil, v_2313267_25);
+if (True == v_2313268_25) {
 R[1] = v_val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312529_25);
+coraCall0(co, v_2312604_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312529_25);
+coraCall0(co, v_2312604_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312529_25);
+coraCall0(co, v_2312604_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312529_25);
+coraCall0(co, v_2312604_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312529_25);
+coraCall0(co, v_2312604_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313197_25= co->res;
-Obj v_2313196_25 = R[1];
-Obj v_2313198_25 = makeCons(co->gc, v_2313197_25, Nil);
-Obj v_2313199_25 = makeCons(co->gc, v_2313196_25, v_2313198_25);
-Obj v_2313200_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313199_25);
-coraReturn(co, v_2313200_25);
+Obj v_2313272_25= co->res;
+Obj v_2313271_25 = R[1];
+Obj v_2313273_25 = makeCons(co->gc, v_2313272_25, Nil);
+Obj v_2313274_25 = makeCons(co->gc, v_2313271_25, v_2313273_25);
+Obj v_2313275_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313274_25);
+coraReturn(co, v_2313275_25);
 return;
 }
 case 2:
 {
-Obj v_2313194_25= co->res;
+Obj v_2313269_25= co->res;
 Obj v_val = R[1];
-Obj v_var1 = v_2313194_25;
-Obj v_2313195_25 = makeCons(co->gc, v_var1, Nil);
-Obj v_2313196_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313195_25);
-R[1] = v_2313196_25;
+Obj v_var1 = v_2313269_25;
+Obj v_2313270_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2313271_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313270_25);
+R[1] = v_2313271_25;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj v_2313176_25= co->res;
+Obj v_2313251_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313176_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313251_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj v_2313170_25= co->res;
-Obj v_2313171_25 = primNot(v_2313170_25);
-coraReturn(co, v_2313171_25);
+Obj v_2313245_25= co->res;
+Obj v_2313246_25 = primNot(v_2313245_25);
+coraReturn(co, v_2313246_25);
 return;
 }
 case 2:
 {
-Obj v_2313169_25= co->res;
+Obj v_2313244_25= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313169_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313244_25);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312512_25 = R[1];
-Obj v_2312513_25 = R[2];
-Obj v_2313154_25 = PRIM_EQ(Nil, v_2312513_25);
-if (True == v_2313154_25) {
+Obj v_2312587_25 = R[1];
+Obj v_2312588_25 = R[2];
+Obj v_2313229_25 = PRIM_EQ(Nil, v_2312588_25);
+if (True == v_2313229_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2312515_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2312513_25, v_2312512_25);
-Obj v_2313158_25 = PRIM_ISCONS(v_2312513_25);
-if (True == v_2313158_25) {
-Obj v_2313159_25 = PRIM_CAR(v_2312513_25);
-Obj v_2313160_25 = PRIM_ISCONS(v_2313159_25);
-if (True == v_2313160_25) {
-Obj v_2313161_25 = PRIM_CAR(v_2312513_25);
-Obj v_2313162_25 = PRIM_CAR(v_2313161_25);
-Obj v_x = v_2313162_25;
-Obj v_2313163_25 = PRIM_CAR(v_2312513_25);
-Obj v_2313164_25 = PRIM_CDR(v_2313163_25);
-Obj v_y = v_2313164_25;
-Obj v_2313165_25 = PRIM_CDR(v_2312513_25);
-Obj v_2313166_25 = PRIM_EQ(v_2312512_25, v_x);
-if (True == v_2313166_25) {
-Obj v_2313167_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2313167_25);
+Obj v_2312590_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2312588_25, v_2312587_25);
+Obj v_2313233_25 = PRIM_ISCONS(v_2312588_25);
+if (True == v_2313233_25) {
+Obj v_2313234_25 = PRIM_CAR(v_2312588_25);
+Obj v_2313235_25 = PRIM_ISCONS(v_2313234_25);
+if (True == v_2313235_25) {
+Obj v_2313236_25 = PRIM_CAR(v_2312588_25);
+Obj v_2313237_25 = PRIM_CAR(v_2313236_25);
+Obj v_x = v_2313237_25;
+Obj v_2313238_25 = PRIM_CAR(v_2312588_25);
+Obj v_2313239_25 = PRIM_CDR(v_2313238_25);
+Obj v_y = v_2313239_25;
+Obj v_2313240_25 = PRIM_CDR(v_2312588_25);
+Obj v_2313241_25 = PRIM_EQ(v_2312587_25, v_x);
+if (True == v_2313241_25) {
+Obj v_2313242_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2313242_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312515_25);
+coraCall0(co, v_2312590_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312515_25);
+coraCall0(co, v_2312590_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312515_25);
+coraCall0(co, v_2312590_25);
 return;
 }
 }
@@ -1397,11 +1397,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313155_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313155_25) {
-Obj v_2313156_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313157_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313157_25;
+Obj v_2313230_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313230_25) {
+Obj v_2313231_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313232_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313232_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
@@ -1418,24 +1418,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312507_25 = R[1];
-Obj v_2312508_25 = R[2];
-Obj v_2312509_25 = R[3];
-Obj v_2313073_25 = PRIM_EQ(Nil, v_2312509_25);
-if (True == v_2313073_25) {
+Obj v_2312582_25 = R[1];
+Obj v_2312583_25 = R[2];
+Obj v_2312584_25 = R[3];
+Obj v_2313148_25 = PRIM_EQ(Nil, v_2312584_25);
+if (True == v_2313148_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2312507_25, v_2312508_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2312582_25, v_2312583_25);
 return;
 } else {
-Obj v_2313074_25 = PRIM_ISCONS(v_2312509_25);
-if (True == v_2313074_25) {
-Obj v_2313075_25 = PRIM_CAR(v_2312509_25);
-Obj v_import = v_2313075_25;
-Obj v_2313076_25 = PRIM_CDR(v_2312509_25);
-Obj v_more = v_2313076_25;
+Obj v_2313149_25 = PRIM_ISCONS(v_2312584_25);
+if (True == v_2313149_25) {
+Obj v_2313150_25 = PRIM_CAR(v_2312584_25);
+Obj v_import = v_2313150_25;
+Obj v_2313151_25 = PRIM_CDR(v_2312584_25);
+Obj v_more = v_2313151_25;
 R[1] = v_import;
-R[2] = v_2312507_25;
-R[3] = v_2312508_25;
+R[2] = v_2312582_25;
+R[3] = v_2312583_25;
 R[4] = v_more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj v_2313083_25= co->res;
+Obj v_2313158_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313083_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313158_25);
 return;
 }
 case 2:
 {
-Obj v_2313082_25= co->res;
+Obj v_2313157_25= co->res;
 Obj v_import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313082_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313157_25);
 return;
 }
 case 3:
 {
-Obj v_2313081_25= co->res;
+Obj v_2313156_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313081_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313156_25);
 return;
 }
 case 4:
 {
-Obj v_2313080_25= co->res;
+Obj v_2313155_25= co->res;
 Obj v_import = R[1];
-Obj v_2312507_25 = R[2];
-Obj v_2312508_25 = R[3];
+Obj v_2312582_25 = R[2];
+Obj v_2312583_25 = R[3];
 Obj v_more = R[4];
-if (True == v_2313080_25) {
+if (True == v_2313155_25) {
 R[1] = v_import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2312507_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2312582_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2312507_25, v_2312508_25, v_more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2312582_25, v_2312583_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj v_2313079_25= co->res;
+Obj v_2313154_25= co->res;
 Obj v_import = R[1];
-Obj v_2312507_25 = R[2];
-Obj v_2312508_25 = R[3];
+Obj v_2312582_25 = R[2];
+Obj v_2312583_25 = R[3];
 Obj v_more = R[4];
-Obj v_export = v_2313079_25;
+Obj v_export = v_2313154_25;
 R[1] = v_import;
-R[2] = v_2312507_25;
-R[3] = v_2312508_25;
+R[2] = v_2312582_25;
+R[3] = v_2312583_25;
 R[4] = v_more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2312507_25, v_export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2312582_25, v_export);
 return;
 }
 case 6:
 {
-Obj v_2313078_25= co->res;
+Obj v_2313153_25= co->res;
 Obj v_import = R[1];
-Obj v_2312507_25 = R[2];
-Obj v_2312508_25 = R[3];
+Obj v_2312582_25 = R[2];
+Obj v_2312583_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2312507_25;
-R[3] = v_2312508_25;
+R[2] = v_2312582_25;
+R[3] = v_2312583_25;
 R[4] = v_more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313078_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313153_25, Nil);
 return;
 }
 case 7:
 {
-Obj v_2313077_25= co->res;
+Obj v_2313152_25= co->res;
 Obj v_import = R[1];
-Obj v_2312507_25 = R[2];
-Obj v_2312508_25 = R[3];
+Obj v_2312582_25 = R[2];
+Obj v_2312583_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2312507_25;
-R[3] = v_2312508_25;
+R[2] = v_2312582_25;
+R[3] = v_2312583_25;
 R[4] = v_more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313077_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313152_25);
 return;
 }
 }
@@ -1544,8 +1544,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2313067_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v_2313067_25) {
+Obj v_2313142_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2313142_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1558,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj v_2313071_25= co->res;
+Obj v_2313146_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313071_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313146_25);
 return;
 }
 case 2:
 {
-Obj v_2313070_25= co->res;
+Obj v_2313145_25= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2313070_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2313145_25);
 return;
 }
 case 3:
 {
-Obj v_2313069_25= co->res;
+Obj v_2313144_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313069_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313144_25);
 return;
 }
 case 4:
 {
-Obj v_2313068_25= co->res;
+Obj v_2313143_25= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v_2313068_25) {
+if (True == v_2313143_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1610,26 +1610,26 @@ return;
 }
 case 1:
 {
-Obj v_2313049_25= co->res;
+Obj v_2313124_25= co->res;
 Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2313049_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
+coraCall1(co, v_2313124_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj v_2313048_25= co->res;
+Obj v_2313123_25= co->res;
 Obj v_path = R[1];
 R[1] = v_path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2313048_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2313123_25);
 return;
 }
 case 3:
 {
-Obj v_2313047_25= co->res;
+Obj v_2313122_25= co->res;
 Obj v_sexp = R[1];
-Obj v_path = v_2313047_25;
+Obj v_path = v_2313122_25;
 R[1] = v_path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
@@ -1645,41 +1645,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2313050_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2313125_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v_2313050_25;
+R[3] = v_2313125_25;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v_2313060_25= co->res;
-Obj v_2313050_25 = R[1];
-Obj v_2313061_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2313060_25);
-Obj v_2313062_25 = makeCons(co->gc, v_2313061_25, Nil);
-Obj v_2313063_25 = makeCons(co->gc, v_2313050_25, v_2313062_25);
-Obj v_2313064_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313063_25);
-Obj v_2313065_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2313064_25);
-coraReturn(co, v_2313065_25);
+Obj v_2313135_25= co->res;
+Obj v_2313125_25 = R[1];
+Obj v_2313136_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2313135_25);
+Obj v_2313137_25 = makeCons(co->gc, v_2313136_25, Nil);
+Obj v_2313138_25 = makeCons(co->gc, v_2313125_25, v_2313137_25);
+Obj v_2313139_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313138_25);
+Obj v_2313140_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2313139_25);
+coraReturn(co, v_2313140_25);
 return;
 }
 case 2:
 {
-Obj v_2313053_25= co->res;
+Obj v_2313128_25= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v_2313050_25 = R[3];
-Obj v_2313054_25 = makeCons(co->gc, v_export, Nil);
-Obj v_2313055_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2313054_25);
-Obj v_2313056_25 = makeCons(co->gc, v_2313055_25, Nil);
-Obj v_2313057_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2313056_25);
-Obj v_2313058_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313057_25);
-Obj v_2313059_25 = makeCons(co->gc, v_2313058_25, v_body);
-R[1] = v_2313050_25;
+Obj v_2313125_25 = R[3];
+Obj v_2313129_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2313130_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2313129_25);
+Obj v_2313131_25 = makeCons(co->gc, v_2313130_25, Nil);
+Obj v_2313132_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2313131_25);
+Obj v_2313133_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313132_25);
+Obj v_2313134_25 = makeCons(co->gc, v_2313133_25, v_body);
+R[1] = v_2313125_25;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313053_25, v_2313059_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313128_25, v_2313134_25);
 return;
 }
 }
@@ -1690,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v_2313051_25 = makeCons(co->gc, v_imp, Nil);
-Obj v_2313052_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313051_25);
-coraReturn(co, v_2313052_25);
+Obj v_2313126_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2313127_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313126_25);
+coraReturn(co, v_2313127_25);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312500_25 = R[1];
-Obj v_2312501_25 = R[2];
-Obj v_2312502_25 = R[3];
-Obj v_2312503_25 = R[4];
-Obj v_2312504_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2312502_25, v_2312500_25, v_2312501_25, v_2312503_25);
-Obj v_2313027_25 = PRIM_ISCONS(v_2312500_25);
-if (True == v_2313027_25) {
-Obj v_2313028_25 = PRIM_CAR(v_2312500_25);
-Obj v_2313029_25 = PRIM_ISCONS(v_2313028_25);
-if (True == v_2313029_25) {
-Obj v_2313030_25 = PRIM_CAR(v_2312500_25);
-Obj v_2313031_25 = PRIM_CAR(v_2313030_25);
-Obj v_2313032_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313031_25);
-if (True == v_2313032_25) {
-Obj v_2313033_25 = PRIM_CAR(v_2312500_25);
-Obj v_2313034_25 = PRIM_CDR(v_2313033_25);
-Obj v_2313035_25 = PRIM_ISCONS(v_2313034_25);
-if (True == v_2313035_25) {
-Obj v_2313036_25 = PRIM_CAR(v_2312500_25);
-Obj v_2313037_25 = PRIM_CDR(v_2313036_25);
-Obj v_2313038_25 = PRIM_CAR(v_2313037_25);
-Obj v_lib = v_2313038_25;
-Obj v_2313039_25 = PRIM_CAR(v_2312500_25);
-Obj v_2313040_25 = PRIM_CDR(v_2313039_25);
-Obj v_2313041_25 = PRIM_CDR(v_2313040_25);
-Obj v_2313042_25 = PRIM_EQ(Nil, v_2313041_25);
-if (True == v_2313042_25) {
-Obj v_2313043_25 = PRIM_CDR(v_2312500_25);
-Obj v_rest = v_2313043_25;
-Obj v_2313044_25 = makeCons(co->gc, v_lib, v_2312501_25);
+Obj v_2312575_25 = R[1];
+Obj v_2312576_25 = R[2];
+Obj v_2312577_25 = R[3];
+Obj v_2312578_25 = R[4];
+Obj v_2312579_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2312577_25, v_2312575_25, v_2312576_25, v_2312578_25);
+Obj v_2313102_25 = PRIM_ISCONS(v_2312575_25);
+if (True == v_2313102_25) {
+Obj v_2313103_25 = PRIM_CAR(v_2312575_25);
+Obj v_2313104_25 = PRIM_ISCONS(v_2313103_25);
+if (True == v_2313104_25) {
+Obj v_2313105_25 = PRIM_CAR(v_2312575_25);
+Obj v_2313106_25 = PRIM_CAR(v_2313105_25);
+Obj v_2313107_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313106_25);
+if (True == v_2313107_25) {
+Obj v_2313108_25 = PRIM_CAR(v_2312575_25);
+Obj v_2313109_25 = PRIM_CDR(v_2313108_25);
+Obj v_2313110_25 = PRIM_ISCONS(v_2313109_25);
+if (True == v_2313110_25) {
+Obj v_2313111_25 = PRIM_CAR(v_2312575_25);
+Obj v_2313112_25 = PRIM_CDR(v_2313111_25);
+Obj v_2313113_25 = PRIM_CAR(v_2313112_25);
+Obj v_lib = v_2313113_25;
+Obj v_2313114_25 = PRIM_CAR(v_2312575_25);
+Obj v_2313115_25 = PRIM_CDR(v_2313114_25);
+Obj v_2313116_25 = PRIM_CDR(v_2313115_25);
+Obj v_2313117_25 = PRIM_EQ(Nil, v_2313116_25);
+if (True == v_2313117_25) {
+Obj v_2313118_25 = PRIM_CDR(v_2312575_25);
+Obj v_rest = v_2313118_25;
+Obj v_2313119_25 = makeCons(co->gc, v_lib, v_2312576_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2313044_25, v_2312502_25, v_2312503_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2313119_25, v_2312577_25, v_2312578_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312504_25);
+coraCall0(co, v_2312579_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312504_25);
+coraCall0(co, v_2312579_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312504_25);
+coraCall0(co, v_2312579_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312504_25);
+coraCall0(co, v_2312579_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312504_25);
+coraCall0(co, v_2312579_25);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312505_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313018_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2313018_25) {
-Obj v_2313019_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313020_25 = PRIM_ISCONS(v_2313019_25);
-if (True == v_2313020_25) {
-Obj v_2313021_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313022_25 = PRIM_CAR(v_2313021_25);
-Obj v_2313023_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2313022_25);
-if (True == v_2313023_25) {
-Obj v_2313024_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313025_25 = PRIM_CDR(v_2313024_25);
-Obj v_more = v_2313025_25;
-Obj v_2313026_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_rest = v_2313026_25;
+Obj v_2312580_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313093_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313093_25) {
+Obj v_2313094_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313095_25 = PRIM_ISCONS(v_2313094_25);
+if (True == v_2313095_25) {
+Obj v_2313096_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313097_25 = PRIM_CAR(v_2313096_25);
+Obj v_2313098_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2313097_25);
+if (True == v_2313098_25) {
+Obj v_2313099_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313100_25 = PRIM_CDR(v_2313099_25);
+Obj v_more = v_2313100_25;
+Obj v_2313101_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2313101_25;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312505_25);
+coraCall0(co, v_2312580_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312505_25);
+coraCall0(co, v_2312580_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312505_25);
+coraCall0(co, v_2312580_25);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj v_2313017_25= co->res;
+Obj v_2313092_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v_2313017_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2313092_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1848,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj v_2313015_25= co->res;
-Obj v_2313014_25 = R[1];
+Obj v_2313090_25= co->res;
+Obj v_2313089_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2313014_25, v_2313015_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2313089_25, v_2313090_25);
 return;
 }
 case 2:
 {
-Obj v_2313014_25= co->res;
+Obj v_2313089_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2313014_25;
+R[1] = v_2313089_25;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1880,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj v_2313003_25= co->res;
-Obj v_2313002_25 = R[1];
+Obj v_2313078_25= co->res;
+Obj v_2313077_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2313004_25 = makeCons(co->gc, v_2313003_25, Nil);
-Obj v_2313005_25 = makeCons(co->gc, v_2313002_25, v_2313004_25);
-Obj v_2313006_25 = makeCons(co->gc, v_fn, v_2313005_25);
-coraReturn(co, v_2313006_25);
+Obj v_2313079_25 = makeCons(co->gc, v_2313078_25, Nil);
+Obj v_2313080_25 = makeCons(co->gc, v_2313077_25, v_2313079_25);
+Obj v_2313081_25 = makeCons(co->gc, v_fn, v_2313080_25);
+coraReturn(co, v_2313081_25);
 return;
 }
 case 2:
 {
-Obj v_2313009_25= co->res;
-Obj v_2313007_25 = R[1];
+Obj v_2313084_25= co->res;
+Obj v_2313082_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2313010_25 = makeCons(co->gc, v_2313009_25, Nil);
-Obj v_2313011_25 = makeCons(co->gc, v_2313007_25, v_2313010_25);
-Obj v_2313012_25 = makeCons(co->gc, v_fn, v_2313011_25);
-coraReturn(co, v_2313012_25);
+Obj v_2313085_25 = makeCons(co->gc, v_2313084_25, Nil);
+Obj v_2313086_25 = makeCons(co->gc, v_2313082_25, v_2313085_25);
+Obj v_2313087_25 = makeCons(co->gc, v_fn, v_2313086_25);
+coraReturn(co, v_2313087_25);
 return;
 }
 case 3:
 {
-Obj v_2313001_25= co->res;
+Obj v_2313076_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v_2313001_25) {
-Obj v_2313002_25 = PRIM_CAR(v_arglist);
-R[1] = v_2313002_25;
+if (True == v_2313076_25) {
+Obj v_2313077_25 = PRIM_CAR(v_arglist);
+R[1] = v_2313077_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v_2313007_25 = PRIM_CAR(v_arglist);
-Obj v_2313008_25 = PRIM_CDR(v_arglist);
-R[1] = v_2313007_25;
+Obj v_2313082_25 = PRIM_CAR(v_arglist);
+Obj v_2313083_25 = PRIM_CDR(v_arglist);
+R[1] = v_2313082_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2313008_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2313083_25);
 return;
 }
 }
 case 4:
 {
-Obj v_2313000_25= co->res;
+Obj v_2313075_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313000_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313075_25);
 return;
 }
 }
@@ -1947,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj v_2312998_25= co->res;
+Obj v_2313073_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2312998_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2313073_25);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312495_25 = R[1];
-Obj v_2312978_25 = primIsSymbol(v_2312495_25);
-if (True == v_2312978_25) {
-Obj v_2312979_25 = makeCons(co->gc, v_2312495_25, Nil);
-Obj v_2312980_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312979_25);
-coraReturn(co, v_2312980_25);
-return;
-} else {
-Obj v_2312497_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2312495_25);
-Obj v_2312987_25 = PRIM_ISCONS(v_2312495_25);
-if (True == v_2312987_25) {
-Obj v_2312988_25 = PRIM_CAR(v_2312495_25);
-Obj v_2312989_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2312988_25);
-if (True == v_2312989_25) {
-Obj v_2312990_25 = PRIM_CDR(v_2312495_25);
-Obj v_2312991_25 = PRIM_ISCONS(v_2312990_25);
-if (True == v_2312991_25) {
-Obj v_2312992_25 = PRIM_CDR(v_2312495_25);
-Obj v_2312993_25 = PRIM_CAR(v_2312992_25);
-Obj v_x = v_2312993_25;
-Obj v_2312994_25 = PRIM_CDR(v_2312495_25);
-Obj v_2312995_25 = PRIM_CDR(v_2312994_25);
-Obj v_2312996_25 = PRIM_EQ(Nil, v_2312995_25);
-if (True == v_2312996_25) {
+Obj v_2312570_25 = R[1];
+Obj v_2313053_25 = primIsSymbol(v_2312570_25);
+if (True == v_2313053_25) {
+Obj v_2313054_25 = makeCons(co->gc, v_2312570_25, Nil);
+Obj v_2313055_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313054_25);
+coraReturn(co, v_2313055_25);
+return;
+} else {
+Obj v_2312572_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2312570_25);
+Obj v_2313062_25 = PRIM_ISCONS(v_2312570_25);
+if (True == v_2313062_25) {
+Obj v_2313063_25 = PRIM_CAR(v_2312570_25);
+Obj v_2313064_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2313063_25);
+if (True == v_2313064_25) {
+Obj v_2313065_25 = PRIM_CDR(v_2312570_25);
+Obj v_2313066_25 = PRIM_ISCONS(v_2313065_25);
+if (True == v_2313066_25) {
+Obj v_2313067_25 = PRIM_CDR(v_2312570_25);
+Obj v_2313068_25 = PRIM_CAR(v_2313067_25);
+Obj v_x = v_2313068_25;
+Obj v_2313069_25 = PRIM_CDR(v_2312570_25);
+Obj v_2313070_25 = PRIM_CDR(v_2313069_25);
+Obj v_2313071_25 = PRIM_EQ(Nil, v_2313070_25);
+if (True == v_2313071_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312497_25);
+coraCall0(co, v_2312572_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312497_25);
+coraCall0(co, v_2312572_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312497_25);
+coraCall0(co, v_2312572_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312497_25);
+coraCall0(co, v_2312572_25);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312981_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312981_25) {
-Obj v_2312982_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312982_25;
-Obj v_2312983_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2312983_25;
-Obj v_2312984_25 = makeCons(co->gc, v_x, v_more);
+Obj v_2313056_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313056_25) {
+Obj v_2313057_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313057_25;
+Obj v_2313058_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2313058_25;
+Obj v_2313059_25 = makeCons(co->gc, v_x, v_more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2312984_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2313059_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj v_2312985_25= co->res;
-Obj v_2312986_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312985_25);
-coraReturn(co, v_2312986_25);
+Obj v_2313060_25= co->res;
+Obj v_2313061_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313060_25);
+coraReturn(co, v_2313061_25);
 return;
 }
 }
@@ -2044,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312976_25 = PRIM_CDR(v_exp);
+Obj v_2313051_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2312976_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2313051_25);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312491_25 = R[1];
-Obj v_2312492_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2312491_25);
-Obj v_2312971_25 = PRIM_ISCONS(v_2312491_25);
-if (True == v_2312971_25) {
-Obj v_2312972_25 = PRIM_CAR(v_2312491_25);
-Obj v_x = v_2312972_25;
-Obj v_2312973_25 = PRIM_CDR(v_2312491_25);
-Obj v_2312974_25 = PRIM_EQ(Nil, v_2312973_25);
-if (True == v_2312974_25) {
+Obj v_2312566_25 = R[1];
+Obj v_2312567_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2312566_25);
+Obj v_2313046_25 = PRIM_ISCONS(v_2312566_25);
+if (True == v_2313046_25) {
+Obj v_2313047_25 = PRIM_CAR(v_2312566_25);
+Obj v_x = v_2313047_25;
+Obj v_2313048_25 = PRIM_CDR(v_2312566_25);
+Obj v_2313049_25 = PRIM_EQ(Nil, v_2313048_25);
+if (True == v_2313049_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312492_25);
+coraCall0(co, v_2312567_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312492_25);
+coraCall0(co, v_2312567_25);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312493_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v_2312959_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312959_25) {
-Obj v_2312960_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312960_25;
-Obj v_2312961_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312962_25 = PRIM_ISCONS(v_2312961_25);
-if (True == v_2312962_25) {
-Obj v_2312963_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312964_25 = PRIM_CAR(v_2312963_25);
-Obj v_y = v_2312964_25;
-Obj v_2312965_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312966_25 = PRIM_CDR(v_2312965_25);
-Obj v_2312967_25 = PRIM_EQ(Nil, v_2312966_25);
-if (True == v_2312967_25) {
-Obj v_2312968_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2312969_25 = makeCons(co->gc, v_x, v_2312968_25);
-Obj v_2312970_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312969_25);
-coraReturn(co, v_2312970_25);
+Obj v_2312568_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v_2313034_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313034_25) {
+Obj v_2313035_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313035_25;
+Obj v_2313036_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313037_25 = PRIM_ISCONS(v_2313036_25);
+if (True == v_2313037_25) {
+Obj v_2313038_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313039_25 = PRIM_CAR(v_2313038_25);
+Obj v_y = v_2313039_25;
+Obj v_2313040_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313041_25 = PRIM_CDR(v_2313040_25);
+Obj v_2313042_25 = PRIM_EQ(Nil, v_2313041_25);
+if (True == v_2313042_25) {
+Obj v_2313043_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2313044_25 = makeCons(co->gc, v_x, v_2313043_25);
+Obj v_2313045_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313044_25);
+coraReturn(co, v_2313045_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312493_25);
+coraCall0(co, v_2312568_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312493_25);
+coraCall0(co, v_2312568_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312493_25);
+coraCall0(co, v_2312568_25);
 return;
 }
 }
@@ -2128,12 +2128,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312952_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312952_25) {
-Obj v_2312953_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312953_25;
-Obj v_2312954_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2312954_25;
+Obj v_2313027_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313027_25) {
+Obj v_2313028_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313028_25;
+Obj v_2313029_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313029_25;
 R[1] = v_x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj v_2312955_25= co->res;
+Obj v_2313030_25= co->res;
 Obj v_x = R[1];
-Obj v_2312956_25 = makeCons(co->gc, v_2312955_25, Nil);
-Obj v_2312957_25 = makeCons(co->gc, v_x, v_2312956_25);
-Obj v_2312958_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2312957_25);
-coraReturn(co, v_2312958_25);
+Obj v_2313031_25 = makeCons(co->gc, v_2313030_25, Nil);
+Obj v_2313032_25 = makeCons(co->gc, v_x, v_2313031_25);
+Obj v_2313033_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313032_25);
+coraReturn(co, v_2313033_25);
 return;
 }
 }
@@ -2168,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj v_2312950_25= co->res;
+Obj v_2313025_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2312950_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2313025_25);
 return;
 }
 case 2:
 {
-Obj v_2312949_25= co->res;
+Obj v_2313024_25= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2312949_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2313024_25);
 return;
 }
 }
@@ -2218,25 +2218,25 @@ return;
 }
 case 1:
 {
-Obj v_2312938_25= co->res;
+Obj v_2313013_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2312939_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
-Obj v_2312940_25 = makeCons(co->gc, v_2312939_25, v_body);
-Obj v_2312941_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2312940_25);
-Obj v_2312942_25 = makeCons(co->gc, v_2312941_25, Nil);
-Obj v_2312943_25 = makeCons(co->gc, v_args, v_2312942_25);
-Obj v_2312944_25 = makeCons(co->gc, v_2312938_25, v_2312943_25);
-Obj v_2312945_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2312944_25);
-coraReturn(co, v_2312945_25);
+Obj v_2313014_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
+Obj v_2313015_25 = makeCons(co->gc, v_2313014_25, v_body);
+Obj v_2313016_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2313015_25);
+Obj v_2313017_25 = makeCons(co->gc, v_2313016_25, Nil);
+Obj v_2313018_25 = makeCons(co->gc, v_args, v_2313017_25);
+Obj v_2313019_25 = makeCons(co->gc, v_2313013_25, v_2313018_25);
+Obj v_2313020_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2313019_25);
+coraReturn(co, v_2313020_25);
 return;
 }
 case 2:
 {
-Obj v_2312937_25= co->res;
+Obj v_2313012_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_args = v_2312937_25;
+Obj v_args = v_2313012_25;
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun60, 1, R);
@@ -2245,10 +2245,10 @@ return;
 }
 case 3:
 {
-Obj v_2312936_25= co->res;
+Obj v_2313011_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_nargs = v_2312936_25;
+Obj v_nargs = v_2313011_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 2, R);
@@ -2257,9 +2257,9 @@ return;
 }
 case 4:
 {
-Obj v_2312935_25= co->res;
+Obj v_2313010_25= co->res;
 Obj v_exp = R[1];
-Obj v_body = v_2312935_25;
+Obj v_body = v_2313010_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 3, R);
@@ -2268,11 +2268,11 @@ return;
 }
 case 5:
 {
-Obj v_2312934_25= co->res;
+Obj v_2313009_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2312934_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2313009_25);
 return;
 }
 }
@@ -2283,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v_2312928_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v_2312928_25) {
+Obj v_2313003_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2313003_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2312929_25 = primGenSym(co);
-Obj v_2312930_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v_2312929_25;
+Obj v_2313004_25 = primGenSym(co);
+Obj v_2313005_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2313004_25;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2312930_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2313005_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2312931_25= co->res;
-Obj v_2312929_25 = R[1];
-Obj v_2312932_25 = makeCons(co->gc, v_2312929_25, v_2312931_25);
-coraReturn(co, v_2312932_25);
+Obj v_2313006_25= co->res;
+Obj v_2313004_25 = R[1];
+Obj v_2313007_25 = makeCons(co->gc, v_2313004_25, v_2313006_25);
+coraReturn(co, v_2313007_25);
 return;
 }
 }
@@ -2318,10 +2318,10 @@ return;
 }
 case 1:
 {
-Obj v_2312925_25= co->res;
+Obj v_2313000_25= co->res;
 Obj v_n = R[1];
-Obj v_2312926_25 = primNot(v_2312925_25);
-if (True == v_2312926_25) {
+Obj v_2313001_25 = primNot(v_2313000_25);
+if (True == v_2313001_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2332,29 +2332,29 @@ return;
 }
 case 2:
 {
-Obj v_2312924_25= co->res;
+Obj v_2312999_25= co->res;
 Obj v_n = R[1];
 R[1] = v_n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312924_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312999_25);
 return;
 }
 case 3:
 {
-Obj v_2312919_25= co->res;
-Obj v_counts = v_2312919_25;
-Obj v_2312920_25 = PRIM_CAR(v_counts);
-Obj v_n = v_2312920_25;
-Obj v_2312923_25 = PRIM_CDR(v_counts);
+Obj v_2312994_25= co->res;
+Obj v_counts = v_2312994_25;
+Obj v_2312995_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2312995_25;
+Obj v_2312998_25 = PRIM_CDR(v_counts);
 R[1] = v_n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2312923_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2312998_25);
 return;
 }
 case 4:
 {
-Obj v_2312917_25= co->res;
-Obj v_pats = v_2312917_25;
+Obj v_2312992_25= co->res;
+Obj v_pats = v_2312992_25;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
 return;
@@ -2367,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312921_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v_2312922_25 = primNot(v_2312921_25);
-coraReturn(co, v_2312922_25);
+Obj v_2312996_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2312997_25 = primNot(v_2312996_25);
+coraReturn(co, v_2312997_25);
 return;
 }
 }
@@ -2380,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312918_25 = PRIM_CDR(v_x);
+Obj v_2312993_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2312918_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2312993_25);
 return;
 }
 }
@@ -2394,25 +2394,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v_2312911_25 = PRIM_EQ(v_l1, Nil);
-if (True == v_2312911_25) {
+Obj v_2312986_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2312986_25) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v_2312912_25 = PRIM_CAR(v_l1);
-Obj v_2312913_25 = PRIM_CDR(v_l1);
-R[1] = v_2312912_25;
+Obj v_2312987_25 = PRIM_CAR(v_l1);
+Obj v_2312988_25 = PRIM_CDR(v_l1);
+R[1] = v_2312987_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312913_25, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312988_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v_2312914_25= co->res;
-Obj v_2312912_25 = R[1];
-Obj v_2312915_25 = makeCons(co->gc, v_2312912_25, v_2312914_25);
-coraReturn(co, v_2312915_25);
+Obj v_2312989_25= co->res;
+Obj v_2312987_25 = R[1];
+Obj v_2312990_25 = makeCons(co->gc, v_2312987_25, v_2312989_25);
+coraReturn(co, v_2312990_25);
 return;
 }
 }
@@ -2438,14 +2438,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v_2312902_25 = PRIM_ISCONS(v_l);
-if (True == v_2312902_25) {
-Obj v_2312903_25 = PRIM_CAR(v_l);
+Obj v_2312977_25 = PRIM_ISCONS(v_l);
+if (True == v_2312977_25) {
+Obj v_2312978_25 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v_2312903_25);
+coraCall1(co, v_fn, v_2312978_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -2455,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj v_2312904_25= co->res;
+Obj v_2312979_25= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v_2312904_25) {
-Obj v_2312905_25 = PRIM_CAR(v_l);
-Obj v_2312906_25 = makeCons(co->gc, v_2312905_25, v_res);
-Obj v_2312907_25 = PRIM_CDR(v_l);
+if (True == v_2312979_25) {
+Obj v_2312980_25 = PRIM_CAR(v_l);
+Obj v_2312981_25 = makeCons(co->gc, v_2312980_25, v_res);
+Obj v_2312982_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2312906_25, v_fn, v_2312907_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2312981_25, v_fn, v_2312982_25);
 return;
 } else {
-Obj v_2312908_25 = PRIM_CDR(v_l);
+Obj v_2312983_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2312908_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2312983_25);
 return;
 }
 }
@@ -2494,15 +2494,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v_2312897_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2312897_25) {
+Obj v_2312972_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2312972_25) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v_2312898_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v_2312899_25 = PRIM_CDR(v_l);
+Obj v_2312973_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2312974_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2312898_25, v_2312899_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2312973_25, v_2312974_25);
 return;
 }
 }
@@ -2523,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj v_2312895_25= co->res;
-Obj v_2312894_25 = R[1];
+Obj v_2312970_25= co->res;
+Obj v_2312969_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2312894_25, v_2312895_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2312969_25, v_2312970_25);
 return;
 }
 case 2:
 {
-Obj v_2312892_25= co->res;
+Obj v_2312967_25= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v_2312892_25) {
+if (True == v_2312967_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v_2312893_25 = PRIM_CAR(v_rules);
-Obj v_2312894_25 = makeCons(co->gc, v_2312893_25, v_res);
-R[1] = v_2312894_25;
+Obj v_2312968_25 = PRIM_CAR(v_rules);
+Obj v_2312969_25 = makeCons(co->gc, v_2312968_25, v_res);
+R[1] = v_2312969_25;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2569,48 +2569,48 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v_2312839_25 = PRIM_EQ(Nil, v_input);
-if (True == v_2312839_25) {
+Obj v_2312914_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2312914_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v_2312488_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v_2312857_25 = PRIM_ISCONS(v_input);
-if (True == v_2312857_25) {
-Obj v_2312858_25 = PRIM_CAR(v_input);
-Obj v_2312859_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312858_25);
-if (True == v_2312859_25) {
-Obj v_2312860_25 = PRIM_CDR(v_input);
-Obj v_2312861_25 = PRIM_ISCONS(v_2312860_25);
-if (True == v_2312861_25) {
-Obj v_2312862_25 = PRIM_CDR(v_input);
-Obj v_2312863_25 = PRIM_CAR(v_2312862_25);
-Obj v_act = v_2312863_25;
-Obj v_2312864_25 = PRIM_CDR(v_input);
-Obj v_2312865_25 = PRIM_CDR(v_2312864_25);
-Obj v_2312866_25 = PRIM_ISCONS(v_2312865_25);
-if (True == v_2312866_25) {
-Obj v_2312867_25 = PRIM_CDR(v_input);
-Obj v_2312868_25 = PRIM_CDR(v_2312867_25);
-Obj v_2312869_25 = PRIM_CAR(v_2312868_25);
-Obj v_2312870_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2312869_25);
-if (True == v_2312870_25) {
-Obj v_2312871_25 = PRIM_CDR(v_input);
-Obj v_2312872_25 = PRIM_CDR(v_2312871_25);
-Obj v_2312873_25 = PRIM_CDR(v_2312872_25);
-Obj v_2312874_25 = PRIM_ISCONS(v_2312873_25);
-if (True == v_2312874_25) {
-Obj v_2312875_25 = PRIM_CDR(v_input);
-Obj v_2312876_25 = PRIM_CDR(v_2312875_25);
-Obj v_2312877_25 = PRIM_CDR(v_2312876_25);
-Obj v_2312878_25 = PRIM_CAR(v_2312877_25);
-Obj v_pred = v_2312878_25;
-Obj v_2312879_25 = PRIM_CDR(v_input);
-Obj v_2312880_25 = PRIM_CDR(v_2312879_25);
-Obj v_2312881_25 = PRIM_CDR(v_2312880_25);
-Obj v_2312882_25 = PRIM_CDR(v_2312881_25);
-Obj v_remain = v_2312882_25;
+Obj v_2312563_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v_2312932_25 = PRIM_ISCONS(v_input);
+if (True == v_2312932_25) {
+Obj v_2312933_25 = PRIM_CAR(v_input);
+Obj v_2312934_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312933_25);
+if (True == v_2312934_25) {
+Obj v_2312935_25 = PRIM_CDR(v_input);
+Obj v_2312936_25 = PRIM_ISCONS(v_2312935_25);
+if (True == v_2312936_25) {
+Obj v_2312937_25 = PRIM_CDR(v_input);
+Obj v_2312938_25 = PRIM_CAR(v_2312937_25);
+Obj v_act = v_2312938_25;
+Obj v_2312939_25 = PRIM_CDR(v_input);
+Obj v_2312940_25 = PRIM_CDR(v_2312939_25);
+Obj v_2312941_25 = PRIM_ISCONS(v_2312940_25);
+if (True == v_2312941_25) {
+Obj v_2312942_25 = PRIM_CDR(v_input);
+Obj v_2312943_25 = PRIM_CDR(v_2312942_25);
+Obj v_2312944_25 = PRIM_CAR(v_2312943_25);
+Obj v_2312945_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2312944_25);
+if (True == v_2312945_25) {
+Obj v_2312946_25 = PRIM_CDR(v_input);
+Obj v_2312947_25 = PRIM_CDR(v_2312946_25);
+Obj v_2312948_25 = PRIM_CDR(v_2312947_25);
+Obj v_2312949_25 = PRIM_ISCONS(v_2312948_25);
+if (True == v_2312949_25) {
+Obj v_2312950_25 = PRIM_CDR(v_input);
+Obj v_2312951_25 = PRIM_CDR(v_2312950_25);
+Obj v_2312952_25 = PRIM_CDR(v_2312951_25);
+Obj v_2312953_25 = PRIM_CAR(v_2312952_25);
+Obj v_pred = v_2312953_25;
+Obj v_2312954_25 = PRIM_CDR(v_input);
+Obj v_2312955_25 = PRIM_CDR(v_2312954_25);
+Obj v_2312956_25 = PRIM_CDR(v_2312955_25);
+Obj v_2312957_25 = PRIM_CDR(v_2312956_25);
+Obj v_remain = v_2312957_25;
 R[1] = v_act;
 R[2] = v_pred;
 R[3] = v_result;
@@ -2620,52 +2620,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312488_25);
+coraCall0(co, v_2312563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312488_25);
+coraCall0(co, v_2312563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312488_25);
+coraCall0(co, v_2312563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312488_25);
+coraCall0(co, v_2312563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312488_25);
+coraCall0(co, v_2312563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312488_25);
+coraCall0(co, v_2312563_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312883_25= co->res;
+Obj v_2312958_25= co->res;
 Obj v_act = R[1];
 Obj v_pred = R[2];
 Obj v_result = R[3];
 Obj v_remain = R[4];
-Obj v_2312884_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312883_25);
-Obj v_pat = v_2312884_25;
-Obj v_2312885_25 = makeCons(co->gc, v_act, Nil);
-Obj v_2312886_25 = makeCons(co->gc, v_pred, v_2312885_25);
-Obj v_2312887_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2312886_25);
-Obj v_2312888_25 = makeCons(co->gc, v_pat, v_result);
-Obj v_2312889_25 = makeCons(co->gc, v_2312887_25, v_2312888_25);
+Obj v_2312959_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312958_25);
+Obj v_pat = v_2312959_25;
+Obj v_2312960_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2312961_25 = makeCons(co->gc, v_pred, v_2312960_25);
+Obj v_2312962_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2312961_25);
+Obj v_2312963_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2312964_25 = makeCons(co->gc, v_2312962_25, v_2312963_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312889_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312964_25);
 return;
 }
 }
@@ -2675,21 +2675,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312489_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2312844_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312844_25) {
-Obj v_2312845_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2312846_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312845_25);
-if (True == v_2312846_25) {
-Obj v_2312847_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312848_25 = PRIM_ISCONS(v_2312847_25);
-if (True == v_2312848_25) {
-Obj v_2312849_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312850_25 = PRIM_CAR(v_2312849_25);
-Obj v_act = v_2312850_25;
-Obj v_2312851_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312852_25 = PRIM_CDR(v_2312851_25);
-Obj v_remain = v_2312852_25;
+Obj v_2312564_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2312919_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312919_25) {
+Obj v_2312920_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2312921_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312920_25);
+if (True == v_2312921_25) {
+Obj v_2312922_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312923_25 = PRIM_ISCONS(v_2312922_25);
+if (True == v_2312923_25) {
+Obj v_2312924_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312925_25 = PRIM_CAR(v_2312924_25);
+Obj v_act = v_2312925_25;
+Obj v_2312926_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312927_25 = PRIM_CDR(v_2312926_25);
+Obj v_remain = v_2312927_25;
 R[1] = v_act;
 R[2] = v_remain;
 saveCont(co, clofun47, 1, R);
@@ -2697,31 +2697,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312489_25);
+coraCall0(co, v_2312564_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312489_25);
+coraCall0(co, v_2312564_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312489_25);
+coraCall0(co, v_2312564_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2312853_25= co->res;
+Obj v_2312928_25= co->res;
 Obj v_act = R[1];
 Obj v_remain = R[2];
-Obj v_2312854_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312853_25);
-Obj v_pat = v_2312854_25;
-Obj v_2312855_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
-Obj v_2312856_25 = makeCons(co->gc, v_act, v_2312855_25);
+Obj v_2312929_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312928_25);
+Obj v_pat = v_2312929_25;
+Obj v_2312930_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2312931_25 = makeCons(co->gc, v_act, v_2312930_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312856_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312931_25);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312840_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312840_25) {
-Obj v_2312841_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312841_25;
-Obj v_2312842_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2312842_25;
-Obj v_2312843_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
+Obj v_2312915_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2312915_25) {
+Obj v_2312916_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2312916_25;
+Obj v_2312917_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2312917_25;
+Obj v_2312918_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2312843_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2312918_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2774,35 +2774,35 @@ return;
 }
 case 1:
 {
-Obj v_2312826_25= co->res;
+Obj v_2312901_25= co->res;
 Obj v_value = R[1];
-Obj v_rules = v_2312826_25;
-Obj v_2312539_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
-Obj v_2312833_25 = PRIM_ISCONS(v_value);
-if (True == v_2312833_25) {
-Obj v_2312834_25 = PRIM_CAR(v_value);
-Obj v_2312835_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2312834_25);
-Obj v_2312836_25 = primNot(v_2312835_25);
-if (True == v_2312836_25) {
+Obj v_rules = v_2312901_25;
+Obj v_2312614_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
+Obj v_2312908_25 = PRIM_ISCONS(v_value);
+if (True == v_2312908_25) {
+Obj v_2312909_25 = PRIM_CAR(v_value);
+Obj v_2312910_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2312909_25);
+Obj v_2312911_25 = primNot(v_2312910_25);
+if (True == v_2312911_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312539_25, True);
+coraCall1(co, v_2312614_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312539_25, False);
+coraCall1(co, v_2312614_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312539_25, False);
+coraCall1(co, v_2312614_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312825_25= co->res;
+Obj v_2312900_25= co->res;
 Obj v_exp = R[1];
-Obj v_value = v_2312825_25;
+Obj v_value = v_2312900_25;
 R[1] = v_value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
@@ -2810,11 +2810,11 @@ return;
 }
 case 3:
 {
-Obj v_2312824_25= co->res;
+Obj v_2312899_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2312824_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2312899_25);
 return;
 }
 }
@@ -2824,10 +2824,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312540_25 = R[1];
-if (True == v_2312540_25) {
-Obj v_2312827_25 = primGenSym(co);
-Obj v_val = v_2312827_25;
+Obj v_2312615_25 = R[1];
+if (True == v_2312615_25) {
+Obj v_2312902_25 = primGenSym(co);
+Obj v_val = v_2312902_25;
 R[1] = v_val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj v_2312828_25= co->res;
+Obj v_2312903_25= co->res;
 Obj v_val = R[1];
-Obj v_2312829_25 = makeCons(co->gc, v_2312828_25, Nil);
-Obj v_2312830_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312829_25);
-Obj v_2312831_25 = makeCons(co->gc, v_val, v_2312830_25);
-Obj v_2312832_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312831_25);
-coraReturn(co, v_2312832_25);
+Obj v_2312904_25 = makeCons(co->gc, v_2312903_25, Nil);
+Obj v_2312905_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312904_25);
+Obj v_2312906_25 = makeCons(co->gc, v_val, v_2312905_25);
+Obj v_2312907_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312906_25);
+coraReturn(co, v_2312907_25);
 return;
 }
 }
@@ -2866,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj v_2312822_25= co->res;
-Obj v_2312537_25 = R[1];
-if (True == v_2312822_25) {
+Obj v_2312897_25= co->res;
+Obj v_2312612_25 = R[1];
+if (True == v_2312897_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312537_25, True);
+coraCall1(co, v_2312612_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312537_25, False);
+coraCall1(co, v_2312612_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312820_25= co->res;
+Obj v_2312895_25= co->res;
 Obj v_rules = R[1];
-Obj v_2312537_25 = R[2];
-if (True == v_2312820_25) {
-Obj v_2312821_25 = PRIM_CDR(v_rules);
-R[1] = v_2312537_25;
+Obj v_2312612_25 = R[2];
+if (True == v_2312895_25) {
+Obj v_2312896_25 = PRIM_CDR(v_rules);
+R[1] = v_2312612_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2312821_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2312896_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312537_25, False);
+coraCall1(co, v_2312612_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2312802_25= co->res;
+Obj v_2312877_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v_2312802_25) {
-Obj v_2312803_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v_2312804_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312803_25);
-coraReturn(co, v_2312804_25);
+if (True == v_2312877_25) {
+Obj v_2312878_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2312879_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312878_25);
+coraReturn(co, v_2312879_25);
 return;
 } else {
-Obj v_2312537_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v_2312612_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v_2312537_25;
+R[2] = v_2312612_25;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2921,12 +2921,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312538_25 = R[1];
-if (True == v_2312538_25) {
-Obj v_2312805_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_pat = v_2312805_25;
-Obj v_2312806_25 = primGenSym(co);
-Obj v_cc = v_2312806_25;
+Obj v_2312613_25 = R[1];
+if (True == v_2312613_25) {
+Obj v_2312880_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2312880_25;
+Obj v_2312881_25 = primGenSym(co);
+Obj v_cc = v_2312881_25;
 R[1] = v_pat;
 R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
@@ -2940,49 +2940,49 @@ return;
 }
 case 1:
 {
-Obj v_2312812_25= co->res;
+Obj v_2312887_25= co->res;
 Obj v_curr = R[1];
 Obj v_cc = R[2];
-Obj v_rest = v_2312812_25;
-Obj v_2312813_25 = makeCons(co->gc, v_rest, Nil);
-Obj v_2312814_25 = makeCons(co->gc, Nil, v_2312813_25);
-Obj v_2312815_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312814_25);
-Obj v_2312816_25 = makeCons(co->gc, v_curr, Nil);
-Obj v_2312817_25 = makeCons(co->gc, v_2312815_25, v_2312816_25);
-Obj v_2312818_25 = makeCons(co->gc, v_cc, v_2312817_25);
-Obj v_2312819_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312818_25);
-coraReturn(co, v_2312819_25);
+Obj v_rest = v_2312887_25;
+Obj v_2312888_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2312889_25 = makeCons(co->gc, Nil, v_2312888_25);
+Obj v_2312890_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312889_25);
+Obj v_2312891_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2312892_25 = makeCons(co->gc, v_2312890_25, v_2312891_25);
+Obj v_2312893_25 = makeCons(co->gc, v_cc, v_2312892_25);
+Obj v_2312894_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312893_25);
+coraReturn(co, v_2312894_25);
 return;
 }
 case 2:
 {
-Obj v_2312809_25= co->res;
+Obj v_2312884_25= co->res;
 Obj v_cc = R[1];
-Obj v_curr = v_2312809_25;
-Obj v_2312810_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2312811_25 = PRIM_CDR(v_2312810_25);
+Obj v_curr = v_2312884_25;
+Obj v_2312885_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2312886_25 = PRIM_CDR(v_2312885_25);
 R[1] = v_curr;
 R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2312811_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2312886_25);
 return;
 }
 case 3:
 {
-Obj v_2312808_25= co->res;
+Obj v_2312883_25= co->res;
 Obj v_action = R[1];
 Obj v_cc = R[2];
 R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2312808_25, closureRef(R[0], 0), v_action, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2312883_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj v_2312807_25= co->res;
+Obj v_2312882_25= co->res;
 Obj v_pat = R[1];
 Obj v_cc = R[2];
-Obj v_action = v_2312807_25;
+Obj v_action = v_2312882_25;
 R[1] = v_action;
 R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
@@ -2998,36 +2998,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v_2312789_25 = PRIM_CDR(v_rules);
-Obj v_2312790_25 = PRIM_CAR(v_2312789_25);
-Obj v_action = v_2312790_25;
-Obj v_2312535_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+Obj v_2312864_25 = PRIM_CDR(v_rules);
+Obj v_2312865_25 = PRIM_CAR(v_2312864_25);
+Obj v_action = v_2312865_25;
+Obj v_2312610_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
 R[1] = v_action;
-R[2] = v_2312535_25;
+R[2] = v_2312610_25;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
 return;
 }
 case 1:
 {
-Obj v_2312798_25= co->res;
+Obj v_2312873_25= co->res;
 Obj v_action = R[1];
-Obj v_2312535_25 = R[2];
-if (True == v_2312798_25) {
-Obj v_2312799_25 = PRIM_CAR(v_action);
-Obj v_2312800_25 = PRIM_EQ(v_2312799_25, getBinding(co, packageID, 110).name);
-if (True == v_2312800_25) {
+Obj v_2312610_25 = R[2];
+if (True == v_2312873_25) {
+Obj v_2312874_25 = PRIM_CAR(v_action);
+Obj v_2312875_25 = PRIM_EQ(v_2312874_25, getBinding(co, packageID, 110).name);
+if (True == v_2312875_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312535_25, True);
+coraCall1(co, v_2312610_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312535_25, False);
+coraCall1(co, v_2312610_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312535_25, False);
+coraCall1(co, v_2312610_25, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312536_25 = R[1];
-if (True == v_2312536_25) {
+Obj v_2312611_25 = R[1];
+if (True == v_2312611_25) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj v_2312792_25= co->res;
-Obj v_2312791_25 = R[1];
-Obj v_2312793_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2312794_25 = makeCons(co->gc, v_2312793_25, Nil);
-Obj v_2312795_25 = makeCons(co->gc, v_2312792_25, v_2312794_25);
-Obj v_2312796_25 = makeCons(co->gc, v_2312791_25, v_2312795_25);
-Obj v_2312797_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312796_25);
-coraReturn(co, v_2312797_25);
+Obj v_2312867_25= co->res;
+Obj v_2312866_25 = R[1];
+Obj v_2312868_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2312869_25 = makeCons(co->gc, v_2312868_25, Nil);
+Obj v_2312870_25 = makeCons(co->gc, v_2312867_25, v_2312869_25);
+Obj v_2312871_25 = makeCons(co->gc, v_2312866_25, v_2312870_25);
+Obj v_2312872_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312871_25);
+coraReturn(co, v_2312872_25);
 return;
 }
 case 2:
 {
-Obj v_2312791_25= co->res;
-R[1] = v_2312791_25;
+Obj v_2312866_25= co->res;
+R[1] = v_2312866_25;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3089,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj v_2312787_25= co->res;
+Obj v_2312862_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2312787_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2312862_25);
 return;
 }
 case 2:
 {
-Obj v_2312774_25= co->res;
+Obj v_2312849_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2312774_25) {
-Obj v_2312775_25 = PRIM_CAR(v_pat);
-Obj v_2312776_25 = PRIM_EQ(v_2312775_25, getBinding(co, packageID, 139).name);
-if (True == v_2312776_25) {
-Obj v_2312777_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2312778_25 = makeCons(co->gc, v_pat, v_2312777_25);
-Obj v_2312779_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312778_25);
-Obj v_2312780_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2312781_25 = makeCons(co->gc, v_2312780_25, Nil);
-Obj v_2312782_25 = makeCons(co->gc, v_body, v_2312781_25);
-Obj v_2312783_25 = makeCons(co->gc, v_2312779_25, v_2312782_25);
-Obj v_2312784_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312783_25);
-coraReturn(co, v_2312784_25);
-return;
-} else {
-Obj v_2312785_25 = PRIM_CAR(v_pat);
-Obj v_2312786_25 = PRIM_EQ(v_2312785_25, getBinding(co, packageID, 152).name);
-if (True == v_2312786_25) {
+if (True == v_2312849_25) {
+Obj v_2312850_25 = PRIM_CAR(v_pat);
+Obj v_2312851_25 = PRIM_EQ(v_2312850_25, getBinding(co, packageID, 139).name);
+if (True == v_2312851_25) {
+Obj v_2312852_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2312853_25 = makeCons(co->gc, v_pat, v_2312852_25);
+Obj v_2312854_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312853_25);
+Obj v_2312855_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2312856_25 = makeCons(co->gc, v_2312855_25, Nil);
+Obj v_2312857_25 = makeCons(co->gc, v_body, v_2312856_25);
+Obj v_2312858_25 = makeCons(co->gc, v_2312854_25, v_2312857_25);
+Obj v_2312859_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312858_25);
+coraReturn(co, v_2312859_25);
+return;
+} else {
+Obj v_2312860_25 = PRIM_CAR(v_pat);
+Obj v_2312861_25 = PRIM_EQ(v_2312860_25, getBinding(co, packageID, 152).name);
+if (True == v_2312861_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3136,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj v_2312759_25= co->res;
+Obj v_2312834_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2312759_25) {
-Obj v_2312760_25 = PRIM_EQ(v_pat, v_expr);
-if (True == v_2312760_25) {
+if (True == v_2312834_25) {
+Obj v_2312835_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2312835_25) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v_2312761_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2312762_25 = makeCons(co->gc, v_pat, v_2312761_25);
-Obj v_2312763_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312762_25);
-Obj v_2312764_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2312765_25 = makeCons(co->gc, v_2312764_25, Nil);
-Obj v_2312766_25 = makeCons(co->gc, v_body, v_2312765_25);
-Obj v_2312767_25 = makeCons(co->gc, v_2312763_25, v_2312766_25);
-Obj v_2312768_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312767_25);
-coraReturn(co, v_2312768_25);
+Obj v_2312836_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2312837_25 = makeCons(co->gc, v_pat, v_2312836_25);
+Obj v_2312838_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312837_25);
+Obj v_2312839_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2312840_25 = makeCons(co->gc, v_2312839_25, Nil);
+Obj v_2312841_25 = makeCons(co->gc, v_body, v_2312840_25);
+Obj v_2312842_25 = makeCons(co->gc, v_2312838_25, v_2312841_25);
+Obj v_2312843_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312842_25);
+coraReturn(co, v_2312843_25);
 return;
 }
 } else {
-Obj v_2312769_25 = primIsSymbol(v_pat);
-if (True == v_2312769_25) {
-Obj v_2312770_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2312771_25 = makeCons(co->gc, v_expr, v_2312770_25);
-Obj v_2312772_25 = makeCons(co->gc, v_pat, v_2312771_25);
-Obj v_2312773_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312772_25);
-coraReturn(co, v_2312773_25);
+Obj v_2312844_25 = primIsSymbol(v_pat);
+if (True == v_2312844_25) {
+Obj v_2312845_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2312846_25 = makeCons(co->gc, v_expr, v_2312845_25);
+Obj v_2312847_25 = makeCons(co->gc, v_pat, v_2312846_25);
+Obj v_2312848_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312847_25);
+coraReturn(co, v_2312848_25);
 return;
 } else {
 R[1] = v_expr;
@@ -3193,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj v_2312756_25= co->res;
+Obj v_2312831_25= co->res;
 Obj v_x = R[1];
-if (True == v_2312756_25) {
-Obj v_2312757_25 = primIsSymbol(v_x);
-Obj v_2312758_25 = primNot(v_2312757_25);
-if (True == v_2312758_25) {
+if (True == v_2312831_25) {
+Obj v_2312832_25 = primIsSymbol(v_x);
+Obj v_2312833_25 = primNot(v_2312832_25);
+if (True == v_2312833_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3231,40 +3231,40 @@ return;
 }
 case 1:
 {
-Obj v_2312735_25= co->res;
+Obj v_2312810_25= co->res;
 Obj v_x = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_y = v_2312735_25;
-Obj v_2312533_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
-Obj v_2312752_25 = PRIM_ISCONS(v_expr);
-if (True == v_2312752_25) {
-Obj v_2312753_25 = PRIM_CAR(v_expr);
-Obj v_2312754_25 = PRIM_EQ(v_2312753_25, getBinding(co, packageID, 152).name);
-if (True == v_2312754_25) {
+Obj v_y = v_2312810_25;
+Obj v_2312608_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2312827_25 = PRIM_ISCONS(v_expr);
+if (True == v_2312827_25) {
+Obj v_2312828_25 = PRIM_CAR(v_expr);
+Obj v_2312829_25 = PRIM_EQ(v_2312828_25, getBinding(co, packageID, 152).name);
+if (True == v_2312829_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312533_25, True);
+coraCall1(co, v_2312608_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312533_25, False);
+coraCall1(co, v_2312608_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312533_25, False);
+coraCall1(co, v_2312608_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312734_25= co->res;
+Obj v_2312809_25= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_x = v_2312734_25;
+Obj v_x = v_2312809_25;
 R[1] = v_x;
 R[2] = v_body;
 R[3] = v_cc;
@@ -3280,38 +3280,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312534_25 = R[1];
-if (True == v_2312534_25) {
+Obj v_2312609_25 = R[1];
+if (True == v_2312609_25) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2312739_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312740_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2312739_25);
-Obj v_2312741_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312742_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2312741_25);
-Obj v_2312743_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312744_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2312743_25);
-R[1] = v_2312742_25;
-R[2] = v_2312740_25;
+Obj v_2312814_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312815_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2312814_25);
+Obj v_2312816_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312817_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2312816_25);
+Obj v_2312818_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2312819_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2312818_25);
+R[1] = v_2312817_25;
+R[2] = v_2312815_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2312744_25, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2312819_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v_2312738_25= co->res;
+Obj v_2312813_25= co->res;
 Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2312738_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2312813_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v_2312737_25= co->res;
+Obj v_2312812_25= co->res;
 Obj v_e1 = R[1];
-Obj v_e2 = v_2312737_25;
+Obj v_e2 = v_2312812_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3319,8 +3319,8 @@ return;
 }
 case 3:
 {
-Obj v_2312736_25= co->res;
-Obj v_e1 = v_2312736_25;
+Obj v_2312811_25= co->res;
+Obj v_e1 = v_2312811_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3328,24 +3328,24 @@ return;
 }
 case 4:
 {
-Obj v_2312746_25= co->res;
-Obj v_2312740_25 = R[1];
-Obj v_2312747_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2312748_25 = makeCons(co->gc, v_2312747_25, Nil);
-Obj v_2312749_25 = makeCons(co->gc, v_2312746_25, v_2312748_25);
-Obj v_2312750_25 = makeCons(co->gc, v_2312740_25, v_2312749_25);
-Obj v_2312751_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312750_25);
-coraReturn(co, v_2312751_25);
+Obj v_2312821_25= co->res;
+Obj v_2312815_25 = R[1];
+Obj v_2312822_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2312823_25 = makeCons(co->gc, v_2312822_25, Nil);
+Obj v_2312824_25 = makeCons(co->gc, v_2312821_25, v_2312823_25);
+Obj v_2312825_25 = makeCons(co->gc, v_2312815_25, v_2312824_25);
+Obj v_2312826_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312825_25);
+coraReturn(co, v_2312826_25);
 return;
 }
 case 5:
 {
-Obj v_2312745_25= co->res;
-Obj v_2312742_25 = R[1];
-Obj v_2312740_25 = R[2];
-R[1] = v_2312740_25;
+Obj v_2312820_25= co->res;
+Obj v_2312817_25 = R[1];
+Obj v_2312815_25 = R[2];
+R[1] = v_2312815_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2312742_25, v_2312745_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2312817_25, v_2312820_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312732_25 = PRIM_CDR(v_exp);
+Obj v_2312807_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312732_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312807_25);
 return;
 }
 }
@@ -3369,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v_2312722_25 = PRIM_CDR(v_pat);
+Obj v_2312797_25 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312722_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312797_25);
 return;
 }
 case 1:
 {
-Obj v_2312727_25= co->res;
-Obj v_2312725_25 = R[1];
-Obj v_2312728_25 = makeCons(co->gc, v_2312727_25, Nil);
-Obj v_2312729_25 = makeCons(co->gc, v_2312725_25, v_2312728_25);
-Obj v_2312730_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312729_25);
-coraReturn(co, v_2312730_25);
+Obj v_2312802_25= co->res;
+Obj v_2312800_25 = R[1];
+Obj v_2312803_25 = makeCons(co->gc, v_2312802_25, Nil);
+Obj v_2312804_25 = makeCons(co->gc, v_2312800_25, v_2312803_25);
+Obj v_2312805_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312804_25);
+coraReturn(co, v_2312805_25);
 return;
 }
 case 2:
 {
-Obj v_2312723_25= co->res;
+Obj v_2312798_25= co->res;
 Obj v_pat = R[1];
-if (True == v_2312723_25) {
-Obj v_2312724_25 = PRIM_CAR(v_pat);
-coraReturn(co, v_2312724_25);
+if (True == v_2312798_25) {
+Obj v_2312799_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2312799_25);
 return;
 } else {
-Obj v_2312725_25 = PRIM_CAR(v_pat);
-Obj v_2312726_25 = PRIM_CDR(v_pat);
-R[1] = v_2312725_25;
+Obj v_2312800_25 = PRIM_CAR(v_pat);
+Obj v_2312801_25 = PRIM_CDR(v_pat);
+R[1] = v_2312800_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312726_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312801_25);
 return;
 }
 }
@@ -3410,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312719_25 = PRIM_EQ(v_x, True);
-if (True == v_2312719_25) {
+Obj v_2312794_25 = PRIM_EQ(v_x, True);
+if (True == v_2312794_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312720_25 = PRIM_EQ(v_x, False);
-if (True == v_2312720_25) {
+Obj v_2312795_25 = PRIM_EQ(v_x, False);
+if (True == v_2312795_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312717_25 = PRIM_CDR(v_exp);
+Obj v_2312792_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312717_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312792_25);
 return;
 }
 }
@@ -3446,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2312705_25 = PRIM_EQ(Nil, v_l);
-if (True == v_2312705_25) {
+Obj v_2312780_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2312780_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312706_25 = PRIM_CAR(v_l);
-Obj v_2312707_25 = PRIM_EQ(v_2312706_25, False);
-if (True == v_2312707_25) {
+Obj v_2312781_25 = PRIM_CAR(v_l);
+Obj v_2312782_25 = PRIM_EQ(v_2312781_25, False);
+if (True == v_2312782_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312708_25 = PRIM_CDR(v_l);
+Obj v_2312783_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312708_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312783_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312709_25= co->res;
+Obj v_2312784_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2312709_25;
-Obj v_2312710_25 = PRIM_EQ(v_more, False);
-if (True == v_2312710_25) {
+Obj v_more = v_2312784_25;
+Obj v_2312785_25 = PRIM_EQ(v_more, False);
+if (True == v_2312785_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312711_25 = PRIM_CAR(v_l);
-Obj v_2312712_25 = makeCons(co->gc, False, Nil);
-Obj v_2312713_25 = makeCons(co->gc, v_more, v_2312712_25);
-Obj v_2312714_25 = makeCons(co->gc, v_2312711_25, v_2312713_25);
-Obj v_2312715_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312714_25);
-coraReturn(co, v_2312715_25);
+Obj v_2312786_25 = PRIM_CAR(v_l);
+Obj v_2312787_25 = makeCons(co->gc, False, Nil);
+Obj v_2312788_25 = makeCons(co->gc, v_more, v_2312787_25);
+Obj v_2312789_25 = makeCons(co->gc, v_2312786_25, v_2312788_25);
+Obj v_2312790_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312789_25);
+coraReturn(co, v_2312790_25);
 return;
 }
 }
@@ -3492,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312703_25 = PRIM_CDR(v_exp);
+Obj v_2312778_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312703_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312778_25);
 return;
 }
 }
@@ -3505,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2312691_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2312691_25) {
+Obj v_2312766_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2312766_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312692_25 = PRIM_CAR(v_l);
-Obj v_2312693_25 = PRIM_EQ(v_2312692_25, True);
-if (True == v_2312693_25) {
+Obj v_2312767_25 = PRIM_CAR(v_l);
+Obj v_2312768_25 = PRIM_EQ(v_2312767_25, True);
+if (True == v_2312768_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312694_25 = PRIM_CDR(v_l);
+Obj v_2312769_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312694_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312769_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312695_25= co->res;
+Obj v_2312770_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2312695_25;
-Obj v_2312696_25 = PRIM_EQ(v_more, True);
-if (True == v_2312696_25) {
+Obj v_more = v_2312770_25;
+Obj v_2312771_25 = PRIM_EQ(v_more, True);
+if (True == v_2312771_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312697_25 = PRIM_CAR(v_l);
-Obj v_2312698_25 = makeCons(co->gc, v_more, Nil);
-Obj v_2312699_25 = makeCons(co->gc, True, v_2312698_25);
-Obj v_2312700_25 = makeCons(co->gc, v_2312697_25, v_2312699_25);
-Obj v_2312701_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312700_25);
-coraReturn(co, v_2312701_25);
+Obj v_2312772_25 = PRIM_CAR(v_l);
+Obj v_2312773_25 = makeCons(co->gc, v_more, Nil);
+Obj v_2312774_25 = makeCons(co->gc, True, v_2312773_25);
+Obj v_2312775_25 = makeCons(co->gc, v_2312772_25, v_2312774_25);
+Obj v_2312776_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312775_25);
+coraReturn(co, v_2312776_25);
 return;
 }
 }
@@ -3551,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312677_25 = PRIM_CDR(v_exp);
-Obj v_2312678_25 = PRIM_EQ(Nil, v_2312677_25);
-if (True == v_2312678_25) {
-Obj v_2312679_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v_2312680_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312679_25);
-coraReturn(co, v_2312680_25);
+Obj v_2312752_25 = PRIM_CDR(v_exp);
+Obj v_2312753_25 = PRIM_EQ(Nil, v_2312752_25);
+if (True == v_2312753_25) {
+Obj v_2312754_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2312755_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312754_25);
+coraReturn(co, v_2312755_25);
 return;
 } else {
 R[1] = v_exp;
@@ -3567,36 +3567,36 @@ return;
 }
 case 1:
 {
-Obj v_2312684_25= co->res;
-Obj v_2312683_25 = R[1];
-Obj v_2312682_25 = R[2];
-Obj v_2312685_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2312684_25);
-Obj v_2312686_25 = makeCons(co->gc, v_2312685_25, Nil);
-Obj v_2312687_25 = makeCons(co->gc, v_2312683_25, v_2312686_25);
-Obj v_2312688_25 = makeCons(co->gc, v_2312682_25, v_2312687_25);
-Obj v_2312689_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312688_25);
-coraReturn(co, v_2312689_25);
+Obj v_2312759_25= co->res;
+Obj v_2312758_25 = R[1];
+Obj v_2312757_25 = R[2];
+Obj v_2312760_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2312759_25);
+Obj v_2312761_25 = makeCons(co->gc, v_2312760_25, Nil);
+Obj v_2312762_25 = makeCons(co->gc, v_2312758_25, v_2312761_25);
+Obj v_2312763_25 = makeCons(co->gc, v_2312757_25, v_2312762_25);
+Obj v_2312764_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312763_25);
+coraReturn(co, v_2312764_25);
 return;
 }
 case 2:
 {
-Obj v_2312683_25= co->res;
+Obj v_2312758_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312682_25 = R[2];
-R[1] = v_2312683_25;
-R[2] = v_2312682_25;
+Obj v_2312757_25 = R[2];
+R[1] = v_2312758_25;
+R[2] = v_2312757_25;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312681_25= co->res;
+Obj v_2312756_25= co->res;
 Obj v_exp = R[1];
-Obj v_curr = v_2312681_25;
-Obj v_2312682_25 = PRIM_CAR(v_curr);
+Obj v_curr = v_2312756_25;
+Obj v_2312757_25 = PRIM_CAR(v_curr);
 R[1] = v_exp;
-R[2] = v_2312682_25;
+R[2] = v_2312757_25;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
 return;
@@ -3609,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312675_25 = PRIM_CDR(v_exp);
+Obj v_2312750_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312675_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312750_25);
 return;
 }
 }
@@ -3622,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312663_25 = PRIM_CDR(v_exp);
+Obj v_2312738_25 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312663_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312738_25);
 return;
 }
 case 1:
 {
-Obj v_2312669_25= co->res;
-Obj v_2312667_25 = R[1];
-Obj v_2312666_25 = R[2];
-Obj v_2312670_25 = makeCons(co->gc, v_2312669_25, Nil);
-Obj v_2312671_25 = makeCons(co->gc, v_2312667_25, v_2312670_25);
-Obj v_2312672_25 = makeCons(co->gc, v_2312666_25, v_2312671_25);
-Obj v_2312673_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312672_25);
-coraReturn(co, v_2312673_25);
+Obj v_2312744_25= co->res;
+Obj v_2312742_25 = R[1];
+Obj v_2312741_25 = R[2];
+Obj v_2312745_25 = makeCons(co->gc, v_2312744_25, Nil);
+Obj v_2312746_25 = makeCons(co->gc, v_2312742_25, v_2312745_25);
+Obj v_2312747_25 = makeCons(co->gc, v_2312741_25, v_2312746_25);
+Obj v_2312748_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312747_25);
+coraReturn(co, v_2312748_25);
 return;
 }
 case 2:
 {
-Obj v_2312668_25= co->res;
-Obj v_2312667_25 = R[1];
-Obj v_2312666_25 = R[2];
-R[1] = v_2312667_25;
-R[2] = v_2312666_25;
+Obj v_2312743_25= co->res;
+Obj v_2312742_25 = R[1];
+Obj v_2312741_25 = R[2];
+R[1] = v_2312742_25;
+R[2] = v_2312741_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312668_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312743_25);
 return;
 }
 case 3:
 {
-Obj v_2312667_25= co->res;
+Obj v_2312742_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312666_25 = R[2];
-R[1] = v_2312667_25;
-R[2] = v_2312666_25;
+Obj v_2312741_25 = R[2];
+R[1] = v_2312742_25;
+R[2] = v_2312741_25;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2312664_25= co->res;
+Obj v_2312739_25= co->res;
 Obj v_exp = R[1];
-if (True == v_2312664_25) {
-Obj v_2312665_25 = PRIM_CAR(v_exp);
-coraReturn(co, v_2312665_25);
+if (True == v_2312739_25) {
+Obj v_2312740_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2312740_25);
 return;
 } else {
-Obj v_2312666_25 = PRIM_CAR(v_exp);
+Obj v_2312741_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2312666_25;
+R[2] = v_2312741_25;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3687,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312660_25 = PRIM_ISCONS(v_x);
-Obj v_2312661_25 = primNot(v_2312660_25);
-coraReturn(co, v_2312661_25);
+Obj v_2312735_25 = PRIM_ISCONS(v_x);
+Obj v_2312736_25 = primNot(v_2312735_25);
+coraReturn(co, v_2312736_25);
 return;
 }
 }
@@ -3701,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v_2312655_25 = PRIM_ISCONS(v_l);
-if (True == v_2312655_25) {
-Obj v_2312656_25 = PRIM_CAR(v_l);
-Obj v_2312657_25 = PRIM_EQ(v_2312656_25, v_x);
-if (True == v_2312657_25) {
+Obj v_2312730_25 = PRIM_ISCONS(v_l);
+if (True == v_2312730_25) {
+Obj v_2312731_25 = PRIM_CAR(v_l);
+Obj v_2312732_25 = PRIM_EQ(v_2312731_25, v_x);
+if (True == v_2312732_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312658_25 = PRIM_CDR(v_l);
+Obj v_2312733_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2312658_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2312733_25);
 return;
 }
 } else {
@@ -3734,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj v_2312647_25= co->res;
-Obj v_2312646_25 = R[1];
-Obj v_2312645_25 = R[2];
-Obj v_2312648_25 = makeCons(co->gc, v_2312647_25, Nil);
-Obj v_2312649_25 = makeCons(co->gc, v_2312646_25, v_2312648_25);
-Obj v_2312650_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312649_25);
-Obj v_2312651_25 = makeCons(co->gc, v_2312650_25, Nil);
-Obj v_2312652_25 = makeCons(co->gc, v_2312645_25, v_2312651_25);
-Obj v_2312653_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312652_25);
-coraReturn(co, v_2312653_25);
+Obj v_2312722_25= co->res;
+Obj v_2312721_25 = R[1];
+Obj v_2312720_25 = R[2];
+Obj v_2312723_25 = makeCons(co->gc, v_2312722_25, Nil);
+Obj v_2312724_25 = makeCons(co->gc, v_2312721_25, v_2312723_25);
+Obj v_2312725_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312724_25);
+Obj v_2312726_25 = makeCons(co->gc, v_2312725_25, Nil);
+Obj v_2312727_25 = makeCons(co->gc, v_2312720_25, v_2312726_25);
+Obj v_2312728_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312727_25);
+coraReturn(co, v_2312728_25);
 return;
 }
 case 2:
 {
-Obj v_2312646_25= co->res;
+Obj v_2312721_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312645_25 = R[2];
-R[1] = v_2312646_25;
-R[2] = v_2312645_25;
+Obj v_2312720_25 = R[2];
+R[1] = v_2312721_25;
+R[2] = v_2312720_25;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312645_25= co->res;
+Obj v_2312720_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v_2312645_25;
+R[2] = v_2312720_25;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3775,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312643_25 = PRIM_CDR(v_exp);
+Obj v_2312718_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312643_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312718_25);
 return;
 }
 }
@@ -3795,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj v_2312635_25= co->res;
-Obj v_2312634_25 = R[1];
-Obj v_2312633_25 = R[2];
-Obj v_2312636_25 = makeCons(co->gc, v_2312634_25, v_2312635_25);
-Obj v_2312637_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312636_25);
-Obj v_2312638_25 = makeCons(co->gc, v_2312637_25, Nil);
-Obj v_2312639_25 = makeCons(co->gc, v_2312633_25, v_2312638_25);
-Obj v_2312640_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2312639_25);
-coraReturn(co, v_2312640_25);
+Obj v_2312710_25= co->res;
+Obj v_2312709_25 = R[1];
+Obj v_2312708_25 = R[2];
+Obj v_2312711_25 = makeCons(co->gc, v_2312709_25, v_2312710_25);
+Obj v_2312712_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312711_25);
+Obj v_2312713_25 = makeCons(co->gc, v_2312712_25, Nil);
+Obj v_2312714_25 = makeCons(co->gc, v_2312708_25, v_2312713_25);
+Obj v_2312715_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2312714_25);
+coraReturn(co, v_2312715_25);
 return;
 }
 case 2:
 {
-Obj v_2312634_25= co->res;
+Obj v_2312709_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312633_25 = R[2];
-R[1] = v_2312634_25;
-R[2] = v_2312633_25;
+Obj v_2312708_25 = R[2];
+R[1] = v_2312709_25;
+R[2] = v_2312708_25;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312631_25= co->res;
+Obj v_2312706_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312632_25 = makeCons(co->gc, v_2312631_25, Nil);
-Obj v_2312633_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312632_25);
+Obj v_2312707_25 = makeCons(co->gc, v_2312706_25, Nil);
+Obj v_2312708_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312707_25);
 R[1] = v_exp;
-R[2] = v_2312633_25;
+R[2] = v_2312708_25;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3837,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312613_25 = PRIM_ISCONS(v_exp);
-if (True == v_2312613_25) {
-Obj v_2312614_25 = PRIM_CAR(v_exp);
-Obj v_2312615_25 = PRIM_EQ(v_2312614_25, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v_2312615_25) {
-Obj v_2312616_25 = PRIM_CDR(v_exp);
-coraReturn(co, v_2312616_25);
+Obj v_2312688_25 = PRIM_ISCONS(v_exp);
+if (True == v_2312688_25) {
+Obj v_2312689_25 = PRIM_CAR(v_exp);
+Obj v_2312690_25 = PRIM_EQ(v_2312689_25, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v_2312690_25) {
+Obj v_2312691_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2312691_25);
 return;
 } else {
-Obj v_2312617_25 = PRIM_CAR(v_exp);
-Obj v_2312618_25 = PRIM_EQ(v_2312617_25, getBinding(co, packageID, 140).name);
-if (True == v_2312618_25) {
+Obj v_2312692_25 = PRIM_CAR(v_exp);
+Obj v_2312693_25 = PRIM_EQ(v_2312692_25, getBinding(co, packageID, 140).name);
+if (True == v_2312693_25) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v_2312625_25 = PRIM_CAR(v_exp);
-Obj v_2312626_25 = PRIM_EQ(v_2312625_25, getBinding(co, packageID, 139).name);
-if (True == v_2312626_25) {
+Obj v_2312700_25 = PRIM_CAR(v_exp);
+Obj v_2312701_25 = PRIM_EQ(v_2312700_25, getBinding(co, packageID, 139).name);
+if (True == v_2312701_25) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3874,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj v_2312621_25= co->res;
-Obj v_2312619_25 = R[1];
-Obj v_2312622_25 = makeCons(co->gc, v_2312621_25, Nil);
-Obj v_2312623_25 = makeCons(co->gc, v_2312619_25, v_2312622_25);
-Obj v_2312624_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312623_25);
-coraReturn(co, v_2312624_25);
+Obj v_2312696_25= co->res;
+Obj v_2312694_25 = R[1];
+Obj v_2312697_25 = makeCons(co->gc, v_2312696_25, Nil);
+Obj v_2312698_25 = makeCons(co->gc, v_2312694_25, v_2312697_25);
+Obj v_2312699_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312698_25);
+coraReturn(co, v_2312699_25);
 return;
 }
 case 2:
 {
-Obj v_2312620_25= co->res;
-Obj v_2312619_25 = R[1];
-R[1] = v_2312619_25;
+Obj v_2312695_25= co->res;
+Obj v_2312694_25 = R[1];
+R[1] = v_2312694_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2312620_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2312695_25);
 return;
 }
 case 3:
 {
-Obj v_2312619_25= co->res;
+Obj v_2312694_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2312619_25;
+R[1] = v_2312694_25;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2312628_25= co->res;
+Obj v_2312703_25= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2312628_25);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2312703_25);
 return;
 }
 }
@@ -3916,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v_2312627_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v_2312627_25) {
+Obj v_2312702_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2312702_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3948,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v_2312603_25 = PRIM_EQ(Nil, v_macros);
-if (True == v_2312603_25) {
+Obj v_2312678_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2312678_25) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v_2312610_25 = PRIM_CAR(v_macros);
+Obj v_2312685_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2312610_25);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2312685_25);
 return;
 }
 }
@@ -3967,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v_2312531_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2312606_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2312606_25) {
-Obj v_2312607_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2312608_25 = PRIM_CAR(v_item);
-Obj v_2312609_25 = PRIM_EQ(v_2312607_25, v_2312608_25);
-if (True == v_2312609_25) {
+Obj v_2312606_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2312681_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2312681_25) {
+Obj v_2312682_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2312683_25 = PRIM_CAR(v_item);
+Obj v_2312684_25 = PRIM_EQ(v_2312682_25, v_2312683_25);
+if (True == v_2312684_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312531_25, True);
+coraCall1(co, v_2312606_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312531_25, False);
+coraCall1(co, v_2312606_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312531_25, False);
+coraCall1(co, v_2312606_25, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312532_25 = R[1];
-if (True == v_2312532_25) {
-Obj v_2312604_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2312607_25 = R[1];
+if (True == v_2312607_25) {
+Obj v_2312679_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v_2312604_25, closureRef(R[0], 1));
+coraCall1(co, v_2312679_25, closureRef(R[0], 1));
 return;
 } else {
-Obj v_2312605_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2312680_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2312605_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2312680_25);
 return;
 }
 }
@@ -4017,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v_2312599_25 = makeCons(co->gc, v_n, v_v);
-Obj v_2312600_25 = makeCons(co->gc, v_2312599_25, globalRef(co, getBinding(co, packageID, 146)));
-Obj v_2312601_25 = primSet(co, getBinding(co, packageID, 146).name, v_2312600_25);
-coraReturn(co, v_2312601_25);
+Obj v_2312674_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2312675_25 = makeCons(co->gc, v_2312674_25, globalRef(co, getBinding(co, packageID, 146)));
+Obj v_2312676_25 = primSet(co, getBinding(co, packageID, 146).name, v_2312675_25);
+coraReturn(co, v_2312676_25);
 return;
 }
 }
@@ -4046,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v_2312589_25 = PRIM_ISCONS(v_l);
-if (True == v_2312589_25) {
-Obj v_2312590_25 = PRIM_CAR(v_l);
+Obj v_2312664_25 = PRIM_ISCONS(v_l);
+if (True == v_2312664_25) {
+Obj v_2312665_25 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v_2312590_25);
+coraCall1(co, v_f, v_2312665_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -4063,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj v_2312591_25= co->res;
+Obj v_2312666_25= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v_2312592_25 = makeCons(co->gc, v_2312591_25, v_res);
-Obj v_2312593_25 = PRIM_CDR(v_l);
+Obj v_2312667_25 = makeCons(co->gc, v_2312666_25, v_res);
+Obj v_2312668_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2312592_25, v_f, v_2312593_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2312667_25, v_f, v_2312668_25);
 return;
 }
 }
@@ -4082,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v_2312582_25 = PRIM_ISCONS(v_l);
-if (True == v_2312582_25) {
-Obj v_2312583_25 = PRIM_CAR(v_l);
-Obj v_2312584_25 = makeCons(co->gc, v_2312583_25, v_res);
-Obj v_2312585_25 = PRIM_CDR(v_l);
+Obj v_2312657_25 = PRIM_ISCONS(v_l);
+if (True == v_2312657_25) {
+Obj v_2312658_25 = PRIM_CAR(v_l);
+Obj v_2312659_25 = makeCons(co->gc, v_2312658_25, v_res);
+Obj v_2312660_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2312584_25, v_2312585_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2312659_25, v_2312660_25);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312580_25 = PRIM_ISCONS(v_x);
-coraReturn(co, v_2312580_25);
+Obj v_2312655_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2312655_25);
 return;
 }
 }
@@ -4115,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312572_25 = PRIM_ISCONS(v_exp);
-if (True == v_2312572_25) {
-Obj v_2312573_25 = PRIM_CAR(v_exp);
-Obj v_2312574_25 = PRIM_CDR(v_exp);
-R[1] = v_2312573_25;
+Obj v_2312647_25 = PRIM_ISCONS(v_exp);
+if (True == v_2312647_25) {
+Obj v_2312648_25 = PRIM_CAR(v_exp);
+Obj v_2312649_25 = PRIM_CDR(v_exp);
+R[1] = v_2312648_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312574_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312649_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj v_2312575_25= co->res;
-Obj v_2312573_25 = R[1];
-Obj v_2312576_25 = makeCons(co->gc, v_2312575_25, Nil);
-Obj v_2312577_25 = makeCons(co->gc, v_2312573_25, v_2312576_25);
-Obj v_2312578_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312577_25);
-coraReturn(co, v_2312578_25);
+Obj v_2312650_25= co->res;
+Obj v_2312648_25 = R[1];
+Obj v_2312651_25 = makeCons(co->gc, v_2312650_25, Nil);
+Obj v_2312652_25 = makeCons(co->gc, v_2312648_25, v_2312651_25);
+Obj v_2312653_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312652_25);
+coraReturn(co, v_2312653_25);
 return;
 }
 }
@@ -4146,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312568_25 = PRIM_CDR(v_x);
-Obj v_2312569_25 = PRIM_CDR(v_2312568_25);
-Obj v_2312570_25 = PRIM_CDR(v_2312569_25);
-coraReturn(co, v_2312570_25);
+Obj v_2312643_25 = PRIM_CDR(v_x);
+Obj v_2312644_25 = PRIM_CDR(v_2312643_25);
+Obj v_2312645_25 = PRIM_CDR(v_2312644_25);
+coraReturn(co, v_2312645_25);
 return;
 }
 }
@@ -4160,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312563_25 = PRIM_CDR(v_x);
-Obj v_2312564_25 = PRIM_CDR(v_2312563_25);
-Obj v_2312565_25 = PRIM_CDR(v_2312564_25);
-Obj v_2312566_25 = PRIM_CAR(v_2312565_25);
-coraReturn(co, v_2312566_25);
+Obj v_2312638_25 = PRIM_CDR(v_x);
+Obj v_2312639_25 = PRIM_CDR(v_2312638_25);
+Obj v_2312640_25 = PRIM_CDR(v_2312639_25);
+Obj v_2312641_25 = PRIM_CAR(v_2312640_25);
+coraReturn(co, v_2312641_25);
 return;
 }
 }
@@ -4175,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312559_25 = PRIM_CDR(v_x);
-Obj v_2312560_25 = PRIM_CDR(v_2312559_25);
-Obj v_2312561_25 = PRIM_CAR(v_2312560_25);
-coraReturn(co, v_2312561_25);
+Obj v_2312634_25 = PRIM_CDR(v_x);
+Obj v_2312635_25 = PRIM_CDR(v_2312634_25);
+Obj v_2312636_25 = PRIM_CAR(v_2312635_25);
+coraReturn(co, v_2312636_25);
 return;
 }
 }
@@ -4189,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312556_25 = PRIM_CDR(v_x);
-Obj v_2312557_25 = PRIM_CDR(v_2312556_25);
-coraReturn(co, v_2312557_25);
+Obj v_2312631_25 = PRIM_CDR(v_x);
+Obj v_2312632_25 = PRIM_CDR(v_2312631_25);
+coraReturn(co, v_2312632_25);
 return;
 }
 }
@@ -4202,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312553_25 = PRIM_CAR(v_x);
-Obj v_2312554_25 = PRIM_CDR(v_2312553_25);
-coraReturn(co, v_2312554_25);
+Obj v_2312628_25 = PRIM_CAR(v_x);
+Obj v_2312629_25 = PRIM_CDR(v_2312628_25);
+coraReturn(co, v_2312629_25);
 return;
 }
 }
@@ -4215,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312550_25 = PRIM_CAR(v_x);
-Obj v_2312551_25 = PRIM_CAR(v_2312550_25);
-coraReturn(co, v_2312551_25);
+Obj v_2312625_25 = PRIM_CAR(v_x);
+Obj v_2312626_25 = PRIM_CAR(v_2312625_25);
+coraReturn(co, v_2312626_25);
 return;
 }
 }
@@ -4228,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312547_25 = PRIM_CDR(v_x);
-Obj v_2312548_25 = PRIM_CAR(v_2312547_25);
-coraReturn(co, v_2312548_25);
+Obj v_2312622_25 = PRIM_CDR(v_x);
+Obj v_2312623_25 = PRIM_CAR(v_2312622_25);
+coraReturn(co, v_2312623_25);
 return;
 }
 }
@@ -4241,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312545_25 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v_2312545_25);
+Obj v_2312620_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2312620_25);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 408adf6..598d344 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
 static void clofun142(struct Cora* co, int label, Obj *R);
@@ -151,7 +152,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 132);
+Binding *__symbolTable = malloc(sizeof(Binding) * 133);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
@@ -243,235 +244,237 @@ __symbolTable[87] = bindSymbol(co, intern("let"));
 __symbolTable[88] = bindSymbol(co, intern("if"));
 __symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
 __symbolTable[90] = bindSymbol(co, intern("lambda"));
-__symbolTable[91] = bindSymbol(co, intern("%builtin"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[93] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[94] = bindSymbol(co, intern("%global"));
-__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[96] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[91] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[92] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[93] = bindSymbol(co, intern("%global"));
+__symbolTable[94] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[96] = bindSymbol(co, intern("%builtin"));
 __symbolTable[97] = bindSymbol(co, intern("%const"));
-__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[100] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[101] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[102] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[104] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[106] = bindSymbol(co, intern("string?"));
-__symbolTable[107] = bindSymbol(co, intern("integer?"));
-__symbolTable[108] = bindSymbol(co, intern("not"));
-__symbolTable[109] = bindSymbol(co, intern("symbol?"));
-__symbolTable[110] = bindSymbol(co, intern("gensym"));
-__symbolTable[111] = bindSymbol(co, intern("<"));
-__symbolTable[112] = bindSymbol(co, intern(">"));
-__symbolTable[113] = bindSymbol(co, intern("="));
-__symbolTable[114] = bindSymbol(co, intern("/"));
-__symbolTable[115] = bindSymbol(co, intern("*"));
-__symbolTable[116] = bindSymbol(co, intern("-"));
-__symbolTable[117] = bindSymbol(co, intern("+"));
-__symbolTable[118] = bindSymbol(co, intern("cons?"));
-__symbolTable[119] = bindSymbol(co, intern("cons"));
-__symbolTable[120] = bindSymbol(co, intern("cdr"));
-__symbolTable[121] = bindSymbol(co, intern("car"));
-__symbolTable[122] = bindSymbol(co, intern("set"));
-__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[131] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#parse-quote"));
+__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[101] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[103] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[105] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[106] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[107] = bindSymbol(co, intern("string?"));
+__symbolTable[108] = bindSymbol(co, intern("integer?"));
+__symbolTable[109] = bindSymbol(co, intern("not"));
+__symbolTable[110] = bindSymbol(co, intern("symbol?"));
+__symbolTable[111] = bindSymbol(co, intern("gensym"));
+__symbolTable[112] = bindSymbol(co, intern("<"));
+__symbolTable[113] = bindSymbol(co, intern(">"));
+__symbolTable[114] = bindSymbol(co, intern("="));
+__symbolTable[115] = bindSymbol(co, intern("/"));
+__symbolTable[116] = bindSymbol(co, intern("*"));
+__symbolTable[117] = bindSymbol(co, intern("-"));
+__symbolTable[118] = bindSymbol(co, intern("+"));
+__symbolTable[119] = bindSymbol(co, intern("cons?"));
+__symbolTable[120] = bindSymbol(co, intern("cons"));
+__symbolTable[121] = bindSymbol(co, intern("cdr"));
+__symbolTable[122] = bindSymbol(co, intern("car"));
+__symbolTable[123] = bindSymbol(co, intern("set"));
+__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[132] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun144;
+co->ctx.fn = clofun145;
 co->ctx.label = 0;
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun144, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/toc/internal"));
+saveCont(co, clofun145, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v_2318240_25= co->res;
-Obj v_2318246_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj v_2318252_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj v_2318274_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj v_2318297_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun115, 4, 0));
-Obj v_2318310_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun118, 3, 0));
-Obj v_2318351_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj v_2318390_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj v_2318442_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj v_2318443_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj v_2318457_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj v_2318458_25 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v_2318471_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj v_2318481_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, v_2318481_25);
+Obj v_2318334_25= co->res;
+Obj v_2318340_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v_2318346_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v_2318368_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun114, 3, 0));
+Obj v_2318391_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun116, 4, 0));
+Obj v_2318404_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun119, 3, 0));
+Obj v_2318445_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
+Obj v_2318484_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
+Obj v_2318536_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj v_2318537_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj v_2318551_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
+Obj v_2318552_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2318565_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
+Obj v_2318575_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
+coraReturn(co, v_2318575_25);
 return;
 }
 case 2:
 {
-Obj v_2316858_25= co->res;
-Obj v_2316859_25 = primSet(co, getBinding(co, packageID, 130).name, Nil);
-Obj v_2316874_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v_2316880_25 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v_2316890_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v_2316891_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v_2316898_25 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2316899_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2316900_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316899_25);
-Obj v_2316901_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2316900_25);
-Obj v_2316902_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2316903_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316902_25);
-Obj v_2316904_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2316903_25);
-Obj v_2316905_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2316906_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316905_25);
-Obj v_2316907_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2316906_25);
-Obj v_2316908_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2316909_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316908_25);
-Obj v_2316910_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2316909_25);
-Obj v_2316911_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2316912_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316911_25);
-Obj v_2316913_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2316912_25);
-Obj v_2316914_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2316915_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316914_25);
-Obj v_2316916_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2316915_25);
-Obj v_2316917_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2316918_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316917_25);
-Obj v_2316919_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2316918_25);
-Obj v_2316920_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2316921_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316920_25);
-Obj v_2316922_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2316921_25);
-Obj v_2316923_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2316924_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316923_25);
-Obj v_2316925_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2316924_25);
-Obj v_2316926_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2316927_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316926_25);
-Obj v_2316928_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2316927_25);
-Obj v_2316929_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2316930_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316929_25);
-Obj v_2316931_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2316930_25);
-Obj v_2316932_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2316933_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316932_25);
-Obj v_2316934_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2316933_25);
-Obj v_2316935_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2316936_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2316935_25);
-Obj v_2316937_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2316936_25);
-Obj v_2316938_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2316939_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316938_25);
-Obj v_2316940_25 = makeCons(co->gc, getBinding(co, packageID, 109).name, v_2316939_25);
-Obj v_2316941_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2316942_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316941_25);
-Obj v_2316943_25 = makeCons(co->gc, getBinding(co, packageID, 108).name, v_2316942_25);
-Obj v_2316944_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2316945_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316944_25);
-Obj v_2316946_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2316945_25);
-Obj v_2316947_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2316948_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316947_25);
-Obj v_2316949_25 = makeCons(co->gc, getBinding(co, packageID, 106).name, v_2316948_25);
-Obj v_2316950_25 = makeCons(co->gc, v_2316949_25, Nil);
-Obj v_2316951_25 = makeCons(co->gc, v_2316946_25, v_2316950_25);
-Obj v_2316952_25 = makeCons(co->gc, v_2316943_25, v_2316951_25);
-Obj v_2316953_25 = makeCons(co->gc, v_2316940_25, v_2316952_25);
-Obj v_2316954_25 = makeCons(co->gc, v_2316937_25, v_2316953_25);
-Obj v_2316955_25 = makeCons(co->gc, v_2316934_25, v_2316954_25);
-Obj v_2316956_25 = makeCons(co->gc, v_2316931_25, v_2316955_25);
-Obj v_2316957_25 = makeCons(co->gc, v_2316928_25, v_2316956_25);
-Obj v_2316958_25 = makeCons(co->gc, v_2316925_25, v_2316957_25);
-Obj v_2316959_25 = makeCons(co->gc, v_2316922_25, v_2316958_25);
-Obj v_2316960_25 = makeCons(co->gc, v_2316919_25, v_2316959_25);
-Obj v_2316961_25 = makeCons(co->gc, v_2316916_25, v_2316960_25);
-Obj v_2316962_25 = makeCons(co->gc, v_2316913_25, v_2316961_25);
-Obj v_2316963_25 = makeCons(co->gc, v_2316910_25, v_2316962_25);
-Obj v_2316964_25 = makeCons(co->gc, v_2316907_25, v_2316963_25);
-Obj v_2316965_25 = makeCons(co->gc, v_2316904_25, v_2316964_25);
-Obj v_2316966_25 = makeCons(co->gc, v_2316901_25, v_2316965_25);
-Obj v_2316967_25 = primSet(co, getBinding(co, packageID, 123).name, v_2316966_25);
-Obj v_2316971_25 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2316974_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2316977_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2316982_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v_2317176_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj v_2317187_25 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj v_2317198_25 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj v_2317259_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj v_2317434_25 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj v_2317507_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj v_2317510_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj v_2317647_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2317670_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj v_2317747_25 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj v_2317778_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj v_2317784_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj v_2317789_25 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj v_2317798_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj v_2317849_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj v_2317857_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj v_2317864_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj v_2317869_25 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj v_2317875_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj v_2317876_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj v_2317883_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj v_2317890_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj v_2318177_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj v_2318191_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj v_2318213_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj v_2318215_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj v_2318219_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj v_2318220_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v_2318221_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj v_2318222_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj v_2318223_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v_2318230_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj v_2318237_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun108, 2, 0));
-saveCont(co, clofun144, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj v_2316938_25= co->res;
+Obj v_2316939_25 = primSet(co, getBinding(co, packageID, 131).name, Nil);
+Obj v_2316954_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2316960_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2316970_25 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2316971_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2316978_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2316979_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2316980_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316979_25);
+Obj v_2316981_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2316980_25);
+Obj v_2316982_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2316983_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316982_25);
+Obj v_2316984_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2316983_25);
+Obj v_2316985_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2316986_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316985_25);
+Obj v_2316987_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2316986_25);
+Obj v_2316988_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2316989_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316988_25);
+Obj v_2316990_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2316989_25);
+Obj v_2316991_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2316992_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316991_25);
+Obj v_2316993_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2316992_25);
+Obj v_2316994_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2316995_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316994_25);
+Obj v_2316996_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2316995_25);
+Obj v_2316997_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2316998_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316997_25);
+Obj v_2316999_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2316998_25);
+Obj v_2317000_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2317001_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317000_25);
+Obj v_2317002_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2317001_25);
+Obj v_2317003_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2317004_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317003_25);
+Obj v_2317005_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2317004_25);
+Obj v_2317006_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2317007_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317006_25);
+Obj v_2317008_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2317007_25);
+Obj v_2317009_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2317010_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317009_25);
+Obj v_2317011_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2317010_25);
+Obj v_2317012_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2317013_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317012_25);
+Obj v_2317014_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2317013_25);
+Obj v_2317015_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2317016_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2317015_25);
+Obj v_2317017_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2317016_25);
+Obj v_2317018_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2317019_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317018_25);
+Obj v_2317020_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2317019_25);
+Obj v_2317021_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2317022_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317021_25);
+Obj v_2317023_25 = makeCons(co->gc, getBinding(co, packageID, 109).name, v_2317022_25);
+Obj v_2317024_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2317025_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317024_25);
+Obj v_2317026_25 = makeCons(co->gc, getBinding(co, packageID, 108).name, v_2317025_25);
+Obj v_2317027_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2317028_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317027_25);
+Obj v_2317029_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2317028_25);
+Obj v_2317030_25 = makeCons(co->gc, v_2317029_25, Nil);
+Obj v_2317031_25 = makeCons(co->gc, v_2317026_25, v_2317030_25);
+Obj v_2317032_25 = makeCons(co->gc, v_2317023_25, v_2317031_25);
+Obj v_2317033_25 = makeCons(co->gc, v_2317020_25, v_2317032_25);
+Obj v_2317034_25 = makeCons(co->gc, v_2317017_25, v_2317033_25);
+Obj v_2317035_25 = makeCons(co->gc, v_2317014_25, v_2317034_25);
+Obj v_2317036_25 = makeCons(co->gc, v_2317011_25, v_2317035_25);
+Obj v_2317037_25 = makeCons(co->gc, v_2317008_25, v_2317036_25);
+Obj v_2317038_25 = makeCons(co->gc, v_2317005_25, v_2317037_25);
+Obj v_2317039_25 = makeCons(co->gc, v_2317002_25, v_2317038_25);
+Obj v_2317040_25 = makeCons(co->gc, v_2316999_25, v_2317039_25);
+Obj v_2317041_25 = makeCons(co->gc, v_2316996_25, v_2317040_25);
+Obj v_2317042_25 = makeCons(co->gc, v_2316993_25, v_2317041_25);
+Obj v_2317043_25 = makeCons(co->gc, v_2316990_25, v_2317042_25);
+Obj v_2317044_25 = makeCons(co->gc, v_2316987_25, v_2317043_25);
+Obj v_2317045_25 = makeCons(co->gc, v_2316984_25, v_2317044_25);
+Obj v_2317046_25 = makeCons(co->gc, v_2316981_25, v_2317045_25);
+Obj v_2317047_25 = primSet(co, getBinding(co, packageID, 124).name, v_2317046_25);
+Obj v_2317051_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2317054_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2317057_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2317062_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2317079_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 4, clofun11, 2, 0));
+Obj v_2317270_25 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun21, 3, 0));
+Obj v_2317281_25 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun23, 2, 0));
+Obj v_2317292_25 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun25, 2, 0));
+Obj v_2317353_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2317528_25 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun42, 1, 0));
+Obj v_2317601_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj v_2317604_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun46, 1, 0));
+Obj v_2317741_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2317764_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj v_2317841_25 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj v_2317872_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun66, 3, 0));
+Obj v_2317878_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun69, 4, 0));
+Obj v_2317883_25 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2317892_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun73, 1, 0));
+Obj v_2317943_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun75, 2, 0));
+Obj v_2317951_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun76, 2, 0));
+Obj v_2317958_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun77, 2, 0));
+Obj v_2317963_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj v_2317969_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun79, 3, 0));
+Obj v_2317970_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2317977_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun82, 5, 0));
+Obj v_2317984_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj v_2318271_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun97, 5, 0));
+Obj v_2318285_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj v_2318307_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun101, 5, 0));
+Obj v_2318309_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj v_2318313_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v_2318314_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v_2318315_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj v_2318316_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v_2318317_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v_2318324_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun108, 1, 0));
+Obj v_2318331_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun109, 2, 0));
+saveCont(co, clofun145, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun110, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2316857_25= co->res;
-saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/hash-h"));
+Obj v_2316937_25= co->res;
+saveCont(co, clofun145, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v_2316856_25= co->res;
-saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/io"));
+Obj v_2316936_25= co->res;
+saveCont(co, clofun145, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v_2318472_25 = primGenSym(co);
-Obj v_globals = v_2318472_25;
-Obj v_2318473_25 = primSet(co, v_globals, Nil);
+Obj v_2318566_25 = primGenSym(co);
+Obj v_globals = v_2318566_25;
+Obj v_2318567_25 = primSet(co, v_globals, Nil);
 R[1] = v_from;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun143, 7, R);
+saveCont(co, clofun144, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2318480_25= co->res;
+Obj v_2318574_25= co->res;
 Obj v_stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
@@ -479,91 +482,91 @@ return;
 }
 case 2:
 {
-Obj v_2318479_25= co->res;
+Obj v_2318573_25= co->res;
 Obj v_bc = R[1];
 Obj v_stream = R[2];
 R[1] = v_stream;
-saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2318479_25);
+saveCont(co, clofun144, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2318573_25);
 return;
 }
 case 3:
 {
-Obj v_2318478_25= co->res;
+Obj v_2318572_25= co->res;
 Obj v_globals = R[1];
 Obj v_bc = R[2];
-Obj v_stream = v_2318478_25;
+Obj v_stream = v_2318572_25;
 R[1] = v_bc;
 R[2] = v_stream;
-saveCont(co, clofun143, 2, R);
+saveCont(co, clofun144, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
 return;
 }
 case 4:
 {
-Obj v_2318477_25= co->res;
+Obj v_2318571_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_bc = v_2318477_25;
+Obj v_bc = v_2318571_25;
 R[1] = v_globals;
 R[2] = v_bc;
-saveCont(co, clofun143, 3, R);
+saveCont(co, clofun144, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj v_2318476_25= co->res;
-Obj v_2318474_25 = R[1];
+Obj v_2318570_25= co->res;
+Obj v_2318568_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, v_2318474_25, v_2318476_25);
+saveCont(co, clofun144, 4, R);
+coraCall1(co, v_2318568_25, v_2318570_25);
 return;
 }
 case 6:
 {
-Obj v_2318475_25= co->res;
-Obj v_2318474_25 = R[1];
+Obj v_2318569_25= co->res;
+Obj v_2318568_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2318474_25;
+R[1] = v_2318568_25;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2318475_25);
+saveCont(co, clofun144, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2318569_25);
 return;
 }
 case 7:
 {
-Obj v_2318474_25= co->res;
+Obj v_2318568_25= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2318474_25;
+R[1] = v_2318568_25;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun143, 6, R);
+saveCont(co, clofun144, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_file_2dpath = R[1];
-saveCont(co, clofun142, 8, R);
+saveCont(co, clofun143, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_2dpath);
 return;
 }
 case 1:
 {
-Obj v_2318466_25= co->res;
+Obj v_2318560_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -571,16 +574,16 @@ return;
 }
 case 2:
 {
-Obj v_2318465_25= co->res;
+Obj v_2318559_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun142, 1, R);
+saveCont(co, clofun143, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 3:
 {
-Obj v_2318468_25= co->res;
+Obj v_2318562_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -588,16 +591,16 @@ return;
 }
 case 4:
 {
-Obj v_2318467_25= co->res;
+Obj v_2318561_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun142, 3, R);
+saveCont(co, clofun143, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 5:
 {
-Obj v_2318470_25= co->res;
+Obj v_2318564_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -605,115 +608,115 @@ return;
 }
 case 6:
 {
-Obj v_2318469_25= co->res;
+Obj v_2318563_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun142, 5, R);
+saveCont(co, clofun143, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 7:
 {
-Obj v_2318462_25= co->res;
-Obj v_2316854_25 = R[1];
+Obj v_2318556_25= co->res;
+Obj v_2316934_25 = R[1];
 Obj v_sexp = R[2];
-if (True == v_2318462_25) {
-Obj v_2318463_25 = PRIM_CAR(v_sexp);
-Obj v_2318464_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318463_25);
-if (True == v_2318464_25) {
+if (True == v_2318556_25) {
+Obj v_2318557_25 = PRIM_CAR(v_sexp);
+Obj v_2318558_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318557_25);
+if (True == v_2318558_25) {
 R[1] = v_sexp;
-saveCont(co, clofun142, 2, R);
-coraCall1(co, v_2316854_25, True);
+saveCont(co, clofun143, 2, R);
+coraCall1(co, v_2316934_25, True);
 return;
 } else {
 R[1] = v_sexp;
-saveCont(co, clofun142, 4, R);
-coraCall1(co, v_2316854_25, False);
+saveCont(co, clofun143, 4, R);
+coraCall1(co, v_2316934_25, False);
 return;
 }
 } else {
 R[1] = v_sexp;
-saveCont(co, clofun142, 6, R);
-coraCall1(co, v_2316854_25, False);
+saveCont(co, clofun143, 6, R);
+coraCall1(co, v_2316934_25, False);
 return;
 }
 }
 case 8:
 {
-Obj v_2318459_25= co->res;
-Obj v_sexp = v_2318459_25;
-Obj v_2316854_25 = makeNative(co->gc, 2, clofun141, 1, 1, v_sexp);
-R[1] = v_2316854_25;
+Obj v_2318553_25= co->res;
+Obj v_sexp = v_2318553_25;
+Obj v_2316934_25 = makeNative(co->gc, 2, clofun142, 1, 1, v_sexp);
+R[1] = v_2316934_25;
 R[2] = v_sexp;
-saveCont(co, clofun142, 7, R);
+saveCont(co, clofun143, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_sexp);
 return;
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316855_25 = R[1];
-if (True == v_2316855_25) {
-Obj v_2318460_25 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v_2318460_25);
+Obj v_2316935_25 = R[1];
+if (True == v_2316935_25) {
+Obj v_2318554_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2318554_25);
 return;
 } else {
-Obj v_2318461_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v_2318461_25);
+Obj v_2318555_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2318555_25);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316842_25 = R[1];
-Obj v_2316843_25 = makeNative(co->gc, 1, clofun137, 0, 1, v_2316842_25);
-Obj v_2318452_25 = PRIM_ISCONS(v_2316842_25);
-if (True == v_2318452_25) {
-Obj v_2318453_25 = PRIM_CAR(v_2316842_25);
-Obj v_2318454_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318453_25);
-if (True == v_2318454_25) {
-Obj v_2318455_25 = PRIM_CDR(v_2316842_25);
-Obj v_more = v_2318455_25;
-Obj v_2318456_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
+Obj v_2316922_25 = R[1];
+Obj v_2316923_25 = makeNative(co->gc, 1, clofun138, 0, 1, v_2316922_25);
+Obj v_2318546_25 = PRIM_ISCONS(v_2316922_25);
+if (True == v_2318546_25) {
+Obj v_2318547_25 = PRIM_CAR(v_2316922_25);
+Obj v_2318548_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318547_25);
+if (True == v_2318548_25) {
+Obj v_2318549_25 = PRIM_CDR(v_2316922_25);
+Obj v_more = v_2318549_25;
+Obj v_2318550_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318456_25, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318550_25, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316843_25);
+coraCall0(co, v_2316923_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316843_25);
+coraCall0(co, v_2316923_25);
 return;
 }
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -726,49 +729,49 @@ return;
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316844_25 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj v_2318447_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318447_25) {
-Obj v_2318448_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318449_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318448_25);
-if (True == v_2318449_25) {
-Obj v_2318450_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318450_25;
-Obj v_2318451_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
+Obj v_2316924_25 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
+Obj v_2318541_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318541_25) {
+Obj v_2318542_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318543_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318542_25);
+if (True == v_2318543_25) {
+Obj v_2318544_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318544_25;
+Obj v_2318545_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318451_25, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318545_25, makeNative(co->gc, 2, clofun137, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316844_25);
+coraCall0(co, v_2316924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316844_25);
+coraCall0(co, v_2316924_25);
 return;
 }
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -781,39 +784,39 @@ return;
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318444_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2318538_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2318444_25, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2318538_25, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_type = R[1];
 Obj v_code = R[2];
-saveCont(co, clofun133, 1, R);
+saveCont(co, clofun134, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj v_2318445_25= co->res;
-Obj v_2318446_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318445_25);
-coraReturn(co, v_2318446_25);
+Obj v_2318539_25= co->res;
+Obj v_2318540_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318539_25);
+coraReturn(co, v_2318540_25);
 return;
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -831,219 +834,219 @@ return;
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316835_25 = R[1];
-Obj v_2316836_25 = R[2];
-Obj v_2316837_25 = makeNative(co->gc, 2, clofun130, 0, 2, v_2316835_25, v_2316836_25);
-Obj v_2318430_25 = PRIM_ISCONS(v_2316835_25);
-if (True == v_2318430_25) {
-Obj v_2318431_25 = PRIM_CAR(v_2316835_25);
-Obj v_2318432_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318431_25);
-if (True == v_2318432_25) {
-Obj v_2318433_25 = PRIM_CDR(v_2316835_25);
-Obj v_2318434_25 = PRIM_ISCONS(v_2318433_25);
-if (True == v_2318434_25) {
-Obj v_2318435_25 = PRIM_CDR(v_2316835_25);
-Obj v_2318436_25 = PRIM_CAR(v_2318435_25);
-Obj v_name = v_2318436_25;
-Obj v_2318437_25 = PRIM_CDR(v_2316835_25);
-Obj v_2318438_25 = PRIM_CDR(v_2318437_25);
-Obj v_more = v_2318438_25;
+Obj v_2316915_25 = R[1];
+Obj v_2316916_25 = R[2];
+Obj v_2316917_25 = makeNative(co->gc, 2, clofun131, 0, 2, v_2316915_25, v_2316916_25);
+Obj v_2318524_25 = PRIM_ISCONS(v_2316915_25);
+if (True == v_2318524_25) {
+Obj v_2318525_25 = PRIM_CAR(v_2316915_25);
+Obj v_2318526_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318525_25);
+if (True == v_2318526_25) {
+Obj v_2318527_25 = PRIM_CDR(v_2316915_25);
+Obj v_2318528_25 = PRIM_ISCONS(v_2318527_25);
+if (True == v_2318528_25) {
+Obj v_2318529_25 = PRIM_CDR(v_2316915_25);
+Obj v_2318530_25 = PRIM_CAR(v_2318529_25);
+Obj v_name = v_2318530_25;
+Obj v_2318531_25 = PRIM_CDR(v_2316915_25);
+Obj v_2318532_25 = PRIM_CDR(v_2318531_25);
+Obj v_more = v_2318532_25;
 R[1] = v_name;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2316836_25);
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2316916_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316837_25);
+coraCall0(co, v_2316917_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316837_25);
+coraCall0(co, v_2316917_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316837_25);
+coraCall0(co, v_2316917_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318439_25= co->res;
+Obj v_2318533_25= co->res;
 Obj v_name = R[1];
-Obj v_2318440_25 = makeCons(co->gc, v_name, v_2318439_25);
-Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2318440_25);
-coraReturn(co, v_2318441_25);
+Obj v_2318534_25 = makeCons(co->gc, v_name, v_2318533_25);
+Obj v_2318535_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2318534_25);
+coraReturn(co, v_2318535_25);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316838_25 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318409_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318409_25) {
-Obj v_2318410_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318411_25 = PRIM_ISCONS(v_2318410_25);
-if (True == v_2318411_25) {
-Obj v_2318412_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318413_25 = PRIM_CAR(v_2318412_25);
-Obj v_2318414_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318413_25);
-if (True == v_2318414_25) {
-Obj v_2318415_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318416_25 = PRIM_CDR(v_2318415_25);
-Obj v_2318417_25 = PRIM_ISCONS(v_2318416_25);
-if (True == v_2318417_25) {
-Obj v_2318418_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318419_25 = PRIM_CDR(v_2318418_25);
-Obj v_2318420_25 = PRIM_CAR(v_2318419_25);
-Obj v_pkg = v_2318420_25;
-Obj v_2318421_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318422_25 = PRIM_CDR(v_2318421_25);
-Obj v_2318423_25 = PRIM_CDR(v_2318422_25);
-Obj v_2318424_25 = PRIM_EQ(Nil, v_2318423_25);
-if (True == v_2318424_25) {
-Obj v_2318425_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318425_25;
-Obj v_2318426_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2318427_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2318426_25);
-R[1] = v_2318427_25;
-saveCont(co, clofun130, 1, R);
+Obj v_2316918_25 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318503_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318503_25) {
+Obj v_2318504_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318505_25 = PRIM_ISCONS(v_2318504_25);
+if (True == v_2318505_25) {
+Obj v_2318506_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318507_25 = PRIM_CAR(v_2318506_25);
+Obj v_2318508_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318507_25);
+if (True == v_2318508_25) {
+Obj v_2318509_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318510_25 = PRIM_CDR(v_2318509_25);
+Obj v_2318511_25 = PRIM_ISCONS(v_2318510_25);
+if (True == v_2318511_25) {
+Obj v_2318512_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318513_25 = PRIM_CDR(v_2318512_25);
+Obj v_2318514_25 = PRIM_CAR(v_2318513_25);
+Obj v_pkg = v_2318514_25;
+Obj v_2318515_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318516_25 = PRIM_CDR(v_2318515_25);
+Obj v_2318517_25 = PRIM_CDR(v_2318516_25);
+Obj v_2318518_25 = PRIM_EQ(Nil, v_2318517_25);
+if (True == v_2318518_25) {
+Obj v_2318519_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318519_25;
+Obj v_2318520_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2318521_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2318520_25);
+R[1] = v_2318521_25;
+saveCont(co, clofun131, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2316918_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2316918_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2316918_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2316918_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2316918_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318428_25= co->res;
-Obj v_2318427_25 = R[1];
-Obj v_2318429_25 = makeCons(co->gc, v_2318427_25, v_2318428_25);
-coraReturn(co, v_2318429_25);
+Obj v_2318522_25= co->res;
+Obj v_2318521_25 = R[1];
+Obj v_2318523_25 = makeCons(co->gc, v_2318521_25, v_2318522_25);
+coraReturn(co, v_2318523_25);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316839_25 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318397_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318397_25) {
-Obj v_2318398_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318399_25 = PRIM_ISCONS(v_2318398_25);
-if (True == v_2318399_25) {
-Obj v_2318400_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318401_25 = PRIM_CAR(v_2318400_25);
-Obj v_2318402_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318401_25);
-if (True == v_2318402_25) {
-Obj v_2318403_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318404_25 = PRIM_CDR(v_2318403_25);
-Obj v_symbols = v_2318404_25;
-Obj v_2318405_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318405_25;
-Obj v_2318406_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
-R[1] = v_2318406_25;
-saveCont(co, clofun129, 1, R);
+Obj v_2316919_25 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318491_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318491_25) {
+Obj v_2318492_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318493_25 = PRIM_ISCONS(v_2318492_25);
+if (True == v_2318493_25) {
+Obj v_2318494_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318495_25 = PRIM_CAR(v_2318494_25);
+Obj v_2318496_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318495_25);
+if (True == v_2318496_25) {
+Obj v_2318497_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318498_25 = PRIM_CDR(v_2318497_25);
+Obj v_symbols = v_2318498_25;
+Obj v_2318499_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318499_25;
+Obj v_2318500_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2318500_25;
+saveCont(co, clofun130, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2316919_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2316919_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2316919_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318407_25= co->res;
-Obj v_2318406_25 = R[1];
-Obj v_2318408_25 = makeCons(co->gc, v_2318406_25, v_2318407_25);
-coraReturn(co, v_2318408_25);
+Obj v_2318501_25= co->res;
+Obj v_2318500_25 = R[1];
+Obj v_2318502_25 = makeCons(co->gc, v_2318500_25, v_2318501_25);
+coraReturn(co, v_2318502_25);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316840_25 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2318391_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318391_25) {
-Obj v_2318392_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318393_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318392_25);
-if (True == v_2318393_25) {
-Obj v_2318394_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318394_25;
-saveCont(co, clofun128, 1, R);
+Obj v_2316920_25 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2318485_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318485_25) {
+Obj v_2318486_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318487_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318486_25);
+if (True == v_2318487_25) {
+Obj v_2318488_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318488_25;
+saveCont(co, clofun129, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2316920_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2316920_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318395_25= co->res;
-Obj v_2318396_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318395_25);
-coraReturn(co, v_2318396_25);
+Obj v_2318489_25= co->res;
+Obj v_2318490_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318489_25);
+coraReturn(co, v_2318490_25);
 return;
 }
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1054,329 +1057,329 @@ return;
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316827_25 = R[1];
-Obj v_2316828_25 = R[2];
-Obj v_2316829_25 = R[3];
-Obj v_2316830_25 = R[4];
-Obj v_2318352_25 = PRIM_EQ(Nil, v_2316827_25);
-if (True == v_2318352_25) {
-R[1] = v_2316829_25;
-R[2] = v_2316830_25;
-saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316828_25);
-return;
-} else {
-Obj v_2316832_25 = makeNative(co->gc, 1, clofun125, 0, 4, v_2316827_25, v_2316828_25, v_2316829_25, v_2316830_25);
-Obj v_2318379_25 = PRIM_ISCONS(v_2316827_25);
-if (True == v_2318379_25) {
-Obj v_2318380_25 = PRIM_CAR(v_2316827_25);
-Obj v_2318381_25 = PRIM_ISCONS(v_2318380_25);
-if (True == v_2318381_25) {
-Obj v_2318382_25 = PRIM_CAR(v_2316827_25);
-Obj v_2318383_25 = PRIM_CAR(v_2318382_25);
-Obj v_2318384_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2318383_25);
-if (True == v_2318384_25) {
-Obj v_2318385_25 = PRIM_CAR(v_2316827_25);
-Obj v_2318386_25 = PRIM_CDR(v_2318385_25);
-Obj v_exp = v_2318386_25;
-Obj v_2318387_25 = PRIM_CDR(v_2316827_25);
-Obj v_more = v_2318387_25;
-Obj v_2318388_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
-Obj v_2318389_25 = makeCons(co->gc, v_2318388_25, v_2316828_25);
-co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318389_25, v_2316829_25, v_2316830_25);
+Obj v_2316907_25 = R[1];
+Obj v_2316908_25 = R[2];
+Obj v_2316909_25 = R[3];
+Obj v_2316910_25 = R[4];
+Obj v_2318446_25 = PRIM_EQ(Nil, v_2316907_25);
+if (True == v_2318446_25) {
+R[1] = v_2316909_25;
+R[2] = v_2316910_25;
+saveCont(co, clofun127, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316908_25);
 return;
 } else {
+Obj v_2316912_25 = makeNative(co->gc, 1, clofun126, 0, 4, v_2316907_25, v_2316908_25, v_2316909_25, v_2316910_25);
+Obj v_2318473_25 = PRIM_ISCONS(v_2316907_25);
+if (True == v_2318473_25) {
+Obj v_2318474_25 = PRIM_CAR(v_2316907_25);
+Obj v_2318475_25 = PRIM_ISCONS(v_2318474_25);
+if (True == v_2318475_25) {
+Obj v_2318476_25 = PRIM_CAR(v_2316907_25);
+Obj v_2318477_25 = PRIM_CAR(v_2318476_25);
+Obj v_2318478_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2318477_25);
+if (True == v_2318478_25) {
+Obj v_2318479_25 = PRIM_CAR(v_2316907_25);
+Obj v_2318480_25 = PRIM_CDR(v_2318479_25);
+Obj v_exp = v_2318480_25;
+Obj v_2318481_25 = PRIM_CDR(v_2316907_25);
+Obj v_more = v_2318481_25;
+Obj v_2318482_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2318483_25 = makeCons(co->gc, v_2318482_25, v_2316908_25);
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318483_25, v_2316909_25, v_2316910_25);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2316912_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2316912_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2316912_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318354_25= co->res;
-Obj v_2316830_25 = R[1];
-Obj v_2318353_25 = R[2];
+Obj v_2318448_25= co->res;
+Obj v_2316910_25 = R[1];
+Obj v_2318447_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2316830_25, v_2318353_25, v_2318354_25);
+coraCall2(co, v_2316910_25, v_2318447_25, v_2318448_25);
 return;
 }
 case 2:
 {
-Obj v_2318353_25= co->res;
-Obj v_2316829_25 = R[1];
-Obj v_2316830_25 = R[2];
-R[1] = v_2316830_25;
-R[2] = v_2318353_25;
-saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316829_25);
+Obj v_2318447_25= co->res;
+Obj v_2316909_25 = R[1];
+Obj v_2316910_25 = R[2];
+R[1] = v_2316910_25;
+R[2] = v_2318447_25;
+saveCont(co, clofun127, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316909_25);
 return;
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316833_25 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318368_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318368_25) {
-Obj v_2318369_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318370_25 = PRIM_ISCONS(v_2318369_25);
-if (True == v_2318370_25) {
-Obj v_2318371_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318372_25 = PRIM_CAR(v_2318371_25);
-Obj v_2318373_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2318372_25);
-if (True == v_2318373_25) {
-Obj v_2318374_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318375_25 = PRIM_CDR(v_2318374_25);
-Obj v_exp = v_2318375_25;
-Obj v_2318376_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318376_25;
-Obj v_2318377_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
-Obj v_2318378_25 = makeCons(co->gc, v_2318377_25, closureRef(R[0], 1));
+Obj v_2316913_25 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318462_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318462_25) {
+Obj v_2318463_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318464_25 = PRIM_ISCONS(v_2318463_25);
+if (True == v_2318464_25) {
+Obj v_2318465_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318466_25 = PRIM_CAR(v_2318465_25);
+Obj v_2318467_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2318466_25);
+if (True == v_2318467_25) {
+Obj v_2318468_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318469_25 = PRIM_CDR(v_2318468_25);
+Obj v_exp = v_2318469_25;
+Obj v_2318470_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318470_25;
+Obj v_2318471_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2318472_25 = makeCons(co->gc, v_2318471_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318378_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318472_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316833_25);
+coraCall0(co, v_2316913_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316833_25);
+coraCall0(co, v_2316913_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316833_25);
+coraCall0(co, v_2316913_25);
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318355_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318355_25) {
-Obj v_2318356_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_exp = v_2318356_25;
-Obj v_2318357_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318357_25;
-Obj v_2318358_25 = makeCons(co->gc, v_exp, Nil);
-Obj v_2318359_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2318358_25);
-Obj v_2318360_25 = makeCons(co->gc, v_2318359_25, Nil);
-Obj v_2318361_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2318360_25);
-Obj v_2318362_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v_2318363_25 = makeCons(co->gc, v_2318362_25, Nil);
-Obj v_2318364_25 = makeCons(co->gc, v_2318361_25, v_2318363_25);
-Obj v_2318365_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2318364_25);
-Obj v_2318366_25 = makeCons(co->gc, v_2318365_25, closureRef(R[0], 1));
-Obj v_2318367_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
+Obj v_2318449_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318449_25) {
+Obj v_2318450_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2318450_25;
+Obj v_2318451_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2318451_25;
+Obj v_2318452_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2318453_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2318452_25);
+Obj v_2318454_25 = makeCons(co->gc, v_2318453_25, Nil);
+Obj v_2318455_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2318454_25);
+Obj v_2318456_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2318457_25 = makeCons(co->gc, v_2318456_25, Nil);
+Obj v_2318458_25 = makeCons(co->gc, v_2318455_25, v_2318457_25);
+Obj v_2318459_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2318458_25);
+Obj v_2318460_25 = makeCons(co->gc, v_2318459_25, closureRef(R[0], 1));
+Obj v_2318461_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318366_25, v_2318367_25, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318460_25, v_2318461_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316821_25 = R[1];
-Obj v_2316822_25 = makeNative(co->gc, 1, clofun122, 0, 1, v_2316821_25);
-Obj v_2318342_25 = PRIM_ISCONS(v_2316821_25);
-if (True == v_2318342_25) {
-Obj v_2318343_25 = PRIM_CAR(v_2316821_25);
-Obj v_2318344_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318343_25);
-if (True == v_2318344_25) {
-Obj v_2318345_25 = PRIM_CDR(v_2316821_25);
-Obj v_2318346_25 = PRIM_ISCONS(v_2318345_25);
-if (True == v_2318346_25) {
-Obj v_2318347_25 = PRIM_CDR(v_2316821_25);
-Obj v_2318348_25 = PRIM_CAR(v_2318347_25);
-Obj v_2318349_25 = PRIM_CDR(v_2316821_25);
-Obj v_2318350_25 = PRIM_CDR(v_2318349_25);
-Obj v_remain = v_2318350_25;
+Obj v_2316901_25 = R[1];
+Obj v_2316902_25 = makeNative(co->gc, 1, clofun123, 0, 1, v_2316901_25);
+Obj v_2318436_25 = PRIM_ISCONS(v_2316901_25);
+if (True == v_2318436_25) {
+Obj v_2318437_25 = PRIM_CAR(v_2316901_25);
+Obj v_2318438_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318437_25);
+if (True == v_2318438_25) {
+Obj v_2318439_25 = PRIM_CDR(v_2316901_25);
+Obj v_2318440_25 = PRIM_ISCONS(v_2318439_25);
+if (True == v_2318440_25) {
+Obj v_2318441_25 = PRIM_CDR(v_2316901_25);
+Obj v_2318442_25 = PRIM_CAR(v_2318441_25);
+Obj v_2318443_25 = PRIM_CDR(v_2316901_25);
+Obj v_2318444_25 = PRIM_CDR(v_2318443_25);
+Obj v_remain = v_2318444_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2316902_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2316902_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2316902_25);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316823_25 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj v_2318338_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318338_25) {
-Obj v_2318339_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318340_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318339_25);
-if (True == v_2318340_25) {
-Obj v_2318341_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318341_25;
+Obj v_2316903_25 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
+Obj v_2318432_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318432_25) {
+Obj v_2318433_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318434_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318433_25);
+if (True == v_2318434_25) {
+Obj v_2318435_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318435_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2316903_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2316903_25);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316824_25 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj v_2318329_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318329_25) {
-Obj v_2318330_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318331_25 = PRIM_ISCONS(v_2318330_25);
-if (True == v_2318331_25) {
-Obj v_2318332_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318333_25 = PRIM_CAR(v_2318332_25);
-Obj v_2318334_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318333_25);
-if (True == v_2318334_25) {
-Obj v_2318335_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318336_25 = PRIM_CDR(v_2318335_25);
-Obj v_2318337_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318337_25;
+Obj v_2316904_25 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
+Obj v_2318423_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318423_25) {
+Obj v_2318424_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318425_25 = PRIM_ISCONS(v_2318424_25);
+if (True == v_2318425_25) {
+Obj v_2318426_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318427_25 = PRIM_CAR(v_2318426_25);
+Obj v_2318428_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318427_25);
+if (True == v_2318428_25) {
+Obj v_2318429_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318430_25 = PRIM_CDR(v_2318429_25);
+Obj v_2318431_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318431_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2316904_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2316904_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2316904_25);
 return;
 }
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316825_25 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj v_2318311_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318311_25) {
-Obj v_2318312_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318313_25 = PRIM_ISCONS(v_2318312_25);
-if (True == v_2318313_25) {
-Obj v_2318314_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318315_25 = PRIM_CAR(v_2318314_25);
-Obj v_2318316_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318315_25);
-if (True == v_2318316_25) {
-Obj v_2318317_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318318_25 = PRIM_CDR(v_2318317_25);
-Obj v_2318319_25 = PRIM_ISCONS(v_2318318_25);
-if (True == v_2318319_25) {
-Obj v_2318320_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318321_25 = PRIM_CDR(v_2318320_25);
-Obj v_2318322_25 = PRIM_CAR(v_2318321_25);
-Obj v_pkg = v_2318322_25;
-Obj v_2318323_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318324_25 = PRIM_CDR(v_2318323_25);
-Obj v_2318325_25 = PRIM_CDR(v_2318324_25);
-Obj v_2318326_25 = PRIM_EQ(Nil, v_2318325_25);
-if (True == v_2318326_25) {
-Obj v_2318327_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318327_25;
+Obj v_2316905_25 = makeNative(co->gc, 1, clofun120, 0, 0);
+Obj v_2318405_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318405_25) {
+Obj v_2318406_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318407_25 = PRIM_ISCONS(v_2318406_25);
+if (True == v_2318407_25) {
+Obj v_2318408_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318409_25 = PRIM_CAR(v_2318408_25);
+Obj v_2318410_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318409_25);
+if (True == v_2318410_25) {
+Obj v_2318411_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318412_25 = PRIM_CDR(v_2318411_25);
+Obj v_2318413_25 = PRIM_ISCONS(v_2318412_25);
+if (True == v_2318413_25) {
+Obj v_2318414_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318415_25 = PRIM_CDR(v_2318414_25);
+Obj v_2318416_25 = PRIM_CAR(v_2318415_25);
+Obj v_pkg = v_2318416_25;
+Obj v_2318417_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318418_25 = PRIM_CDR(v_2318417_25);
+Obj v_2318419_25 = PRIM_CDR(v_2318418_25);
+Obj v_2318420_25 = PRIM_EQ(Nil, v_2318419_25);
+if (True == v_2318420_25) {
+Obj v_2318421_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2318421_25;
 R[1] = v_remain;
-saveCont(co, clofun120, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_pkg);
+saveCont(co, clofun121, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2316905_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2316905_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2316905_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2316905_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2316905_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318328_25= co->res;
+Obj v_2318422_25= co->res;
 Obj v_remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
@@ -1385,7 +1388,7 @@ return;
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1395,7 +1398,7 @@ return;
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1405,133 +1408,133 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 9, R);
+saveCont(co, clofun119, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v_2318309_25= co->res;
+Obj v_2318403_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun117, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun118, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj v_2318308_25= co->res;
-Obj v_2318305_25 = R[1];
+Obj v_2318402_25= co->res;
+Obj v_2318399_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2318305_25, v_2318308_25);
+saveCont(co, clofun119, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2318399_25, v_2318402_25);
 return;
 }
 case 3:
 {
-Obj v_2318306_25= co->res;
-Obj v_2318305_25 = R[1];
+Obj v_2318400_25= co->res;
+Obj v_2318399_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
-Obj v_2318307_25 = PRIM_CAR(v_2318306_25);
-R[1] = v_2318305_25;
+Obj v_2318401_25 = PRIM_CAR(v_2318400_25);
+R[1] = v_2318399_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_2318307_25);
+saveCont(co, clofun119, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_2318401_25);
 return;
 }
 case 4:
 {
-Obj v_2318305_25= co->res;
+Obj v_2318399_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-R[1] = v_2318305_25;
+R[1] = v_2318399_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun118, 3, R);
+saveCont(co, clofun119, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 23)), v_bc);
 return;
 }
 case 5:
 {
-Obj v_2318304_25= co->res;
+Obj v_2318398_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 4, R);
+saveCont(co, clofun119, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_bc);
 return;
 }
 case 6:
 {
-Obj v_2318303_25= co->res;
+Obj v_2318397_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 5, R);
+saveCont(co, clofun119, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v_2318300_25= co->res;
+Obj v_2318394_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun116, 1, 1, v_to), v_bc);
+saveCont(co, clofun119, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun117, 1, 1, v_to), v_bc);
 return;
 }
 case 8:
 {
-Obj v_2318299_25= co->res;
+Obj v_2318393_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 7, R);
+saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj v_2318298_25= co->res;
+Obj v_2318392_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun118, 8, R);
+saveCont(co, clofun119, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1543,19 +1546,19 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v_2318301_25 = PRIM_CAR(v_group);
-saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2318301_25);
+Obj v_2318395_25 = PRIM_CAR(v_group);
+saveCont(co, clofun117, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2318395_25);
 return;
 }
 case 1:
 {
-Obj v_2318302_25= co->res;
+Obj v_2318396_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1563,7 +1566,7 @@ return;
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1575,13 +1578,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun115, 14, R);
+saveCont(co, clofun116, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v_2318296_25= co->res;
+Obj v_2318390_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1589,86 +1592,86 @@ return;
 }
 case 2:
 {
-Obj v_2318295_25= co->res;
+Obj v_2318389_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2318294_25= co->res;
+Obj v_2318388_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
-saveCont(co, clofun115, 2, R);
+saveCont(co, clofun116, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj v_2318293_25= co->res;
+Obj v_2318387_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun115, 3, R);
+saveCont(co, clofun116, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v_2318292_25= co->res;
+Obj v_2318386_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun116, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v_2318291_25= co->res;
+Obj v_2318385_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun115, 5, R);
+saveCont(co, clofun116, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_nframe);
 return;
 }
 case 7:
 {
-Obj v_2318290_25= co->res;
+Obj v_2318384_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun116, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 8:
 {
-Obj v_2318289_25= co->res;
+Obj v_2318383_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun115, 7, R);
+saveCont(co, clofun116, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 9:
 {
-Obj v_2318280_25= co->res;
+Obj v_2318374_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1676,13 +1679,13 @@ Obj v_to = R[4];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun115, 8, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun114, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+saveCont(co, clofun116, 8, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun115, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 10:
 {
-Obj v_2318279_25= co->res;
+Obj v_2318373_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1691,13 +1694,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun115, 9, R);
+saveCont(co, clofun116, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 11:
 {
-Obj v_2318278_25= co->res;
+Obj v_2318372_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1706,13 +1709,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2318278_25);
+saveCont(co, clofun116, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2318372_25);
 return;
 }
 case 12:
 {
-Obj v_2318277_25= co->res;
+Obj v_2318371_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1721,13 +1724,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun115, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_globals);
+saveCont(co, clofun116, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_globals);
 return;
 }
 case 13:
 {
-Obj v_2318276_25= co->res;
+Obj v_2318370_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1736,13 +1739,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun115, 12, R);
+saveCont(co, clofun116, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 14:
 {
-Obj v_2318275_25= co->res;
+Obj v_2318369_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1751,14 +1754,14 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun115, 13, R);
+saveCont(co, clofun116, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1766,99 +1769,99 @@ Obj v_acc = R[1];
 Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun114, 7, R);
+saveCont(co, clofun115, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v_2318287_25= co->res;
+Obj v_2318381_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318288_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318288_25);
+Obj v_2318382_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318382_25);
 return;
 }
 case 2:
 {
-Obj v_2318286_25= co->res;
+Obj v_2318380_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v_2318285_25= co->res;
+Obj v_2318379_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2318285_25);
+saveCont(co, clofun115, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2318379_25);
 return;
 }
 case 4:
 {
-Obj v_2318284_25= co->res;
+Obj v_2318378_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2318284_25);
+saveCont(co, clofun115, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2318378_25);
 return;
 }
 case 5:
 {
-Obj v_2318283_25= co->res;
+Obj v_2318377_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun115, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 25)), v_sym);
 return;
 }
 case 6:
 {
-Obj v_2318282_25= co->res;
+Obj v_2318376_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun114, 5, R);
+saveCont(co, clofun115, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v_2318281_25= co->res;
+Obj v_2318375_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun114, 6, R);
+saveCont(co, clofun115, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v_2318253_25 = PRIM_CAR(v_group);
-Obj v_label = v_2318253_25;
+Obj v_2318347_25 = PRIM_CAR(v_group);
+Obj v_label = v_2318347_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun113, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_group);
+saveCont(co, clofun114, 13, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_group);
 return;
 }
 case 1:
 {
-Obj v_2318273_25= co->res;
+Obj v_2318367_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1866,28 +1869,28 @@ return;
 }
 case 2:
 {
-Obj v_2318272_25= co->res;
+Obj v_2318366_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun113, 1, R);
+saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2318271_25= co->res;
+Obj v_2318365_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
-saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun112, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2318271_25);
+saveCont(co, clofun114, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun113, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2318365_25);
 return;
 }
 case 4:
 {
-Obj v_2318263_25= co->res;
+Obj v_2318357_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1896,13 +1899,13 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun113, 3, R);
+saveCont(co, clofun114, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
 return;
 }
 case 5:
 {
-Obj v_2318262_25= co->res;
+Obj v_2318356_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1911,13 +1914,13 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun113, 4, R);
+saveCont(co, clofun114, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v_2318261_25= co->res;
+Obj v_2318355_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1928,14 +1931,14 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun113, 5, R);
+saveCont(co, clofun114, 5, R);
 Obj __args[5] = {v_globals, v_label, v_params, v_to, v_first_2dstmt};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2318260_25= co->res;
+Obj v_2318354_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1948,14 +1951,14 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun113, 6, R);
+saveCont(co, clofun114, 6, R);
 Obj __args[5] = {v_globals, v_label, Nil, v_to, v_params};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v_2318259_25= co->res;
+Obj v_2318353_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1968,13 +1971,13 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun113, 7, R);
+saveCont(co, clofun114, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v_2318258_25= co->res;
+Obj v_2318352_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1987,13 +1990,13 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun113, 8, R);
+saveCont(co, clofun114, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v_2318257_25= co->res;
+Obj v_2318351_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2006,65 +2009,65 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun113, 9, R);
+saveCont(co, clofun114, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v_2318256_25= co->res;
+Obj v_2318350_25= co->res;
 Obj v_params = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
 Obj v_lam = R[4];
 Obj v_to = R[5];
-Obj v_first_2dstmt = v_2318256_25;
+Obj v_first_2dstmt = v_2318350_25;
 R[1] = v_params;
 R[2] = v_first_2dstmt;
 R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun113, 10, R);
+saveCont(co, clofun114, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), v_to, v_label);
 return;
 }
 case 12:
 {
-Obj v_2318255_25= co->res;
+Obj v_2318349_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
-Obj v_params = v_2318255_25;
+Obj v_params = v_2318349_25;
 R[1] = v_params;
 R[2] = v_globals;
 R[3] = v_label;
 R[4] = v_lam;
 R[5] = v_to;
-saveCont(co, clofun113, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_lam);
+saveCont(co, clofun114, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_lam);
 return;
 }
 case 13:
 {
-Obj v_2318254_25= co->res;
+Obj v_2318348_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-Obj v_lam = v_2318254_25;
+Obj v_lam = v_2318348_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun113, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_lam);
+saveCont(co, clofun114, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2072,222 +2075,222 @@ Obj v_acc = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun112, 6, R);
+saveCont(co, clofun113, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v_2318269_25= co->res;
+Obj v_2318363_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318270_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318270_25);
+Obj v_2318364_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318364_25);
 return;
 }
 case 2:
 {
-Obj v_2318268_25= co->res;
+Obj v_2318362_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun112, 1, R);
+saveCont(co, clofun113, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2318267_25= co->res;
+Obj v_2318361_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2318267_25, closureRef(R[0], 3), v_cont};
+saveCont(co, clofun113, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2318361_25, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 41)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2318266_25= co->res;
+Obj v_2318360_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun112, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
+saveCont(co, clofun113, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v_2318265_25= co->res;
+Obj v_2318359_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun112, 4, R);
+saveCont(co, clofun113, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v_2318264_25= co->res;
+Obj v_2318358_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun112, 5, R);
+saveCont(co, clofun113, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316817_25 = R[1];
-Obj v_2316818_25 = R[2];
-Obj v_2318247_25 = PRIM_EQ(Nil, v_2316818_25);
-if (True == v_2318247_25) {
+Obj v_2316897_25 = R[1];
+Obj v_2316898_25 = R[2];
+Obj v_2318341_25 = PRIM_EQ(Nil, v_2316898_25);
+if (True == v_2318341_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318248_25 = PRIM_ISCONS(v_2316818_25);
-if (True == v_2318248_25) {
-Obj v_2318249_25 = PRIM_CAR(v_2316818_25);
-Obj v_x = v_2318249_25;
-Obj v_2318250_25 = PRIM_CDR(v_2316818_25);
-Obj v_y = v_2318250_25;
-R[1] = v_2316817_25;
+Obj v_2318342_25 = PRIM_ISCONS(v_2316898_25);
+if (True == v_2318342_25) {
+Obj v_2318343_25 = PRIM_CAR(v_2316898_25);
+Obj v_x = v_2318343_25;
+Obj v_2318344_25 = PRIM_CDR(v_2316898_25);
+Obj v_y = v_2318344_25;
+R[1] = v_2316897_25;
 R[2] = v_y;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, v_2316817_25, v_x);
+saveCont(co, clofun112, 1, R);
+coraCall1(co, v_2316897_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318251_25= co->res;
-Obj v_2316817_25 = R[1];
+Obj v_2318345_25= co->res;
+Obj v_2316897_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2316817_25, v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2316897_25, v_y);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun110, 5, R);
+saveCont(co, clofun111, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2318245_25= co->res;
+Obj v_2318339_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2318245_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2318339_25);
 return;
 }
 case 2:
 {
-Obj v_2318244_25= co->res;
-saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2318244_25);
+Obj v_2318338_25= co->res;
+saveCont(co, clofun111, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2318338_25);
 return;
 }
 case 3:
 {
-Obj v_2318243_25= co->res;
-saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2318243_25);
+Obj v_2318337_25= co->res;
+saveCont(co, clofun111, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2318337_25);
 return;
 }
 case 4:
 {
-Obj v_2318242_25= co->res;
-saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2318242_25);
+Obj v_2318336_25= co->res;
+saveCont(co, clofun111, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2318336_25);
 return;
 }
 case 5:
 {
-Obj v_2318241_25= co->res;
+Obj v_2318335_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun110, 4, R);
-coraCall1(co, v_2318241_25, v_exp);
+saveCont(co, clofun111, 4, R);
+coraCall1(co, v_2318335_25, v_exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun109, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_exp);
+saveCont(co, clofun110, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2318239_25= co->res;
+Obj v_2318333_25= co->res;
 Obj v_obj = R[1];
-Obj v_fns = v_2318239_25;
+Obj v_fns = v_2318333_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj v_2318238_25= co->res;
+Obj v_2318332_25= co->res;
 Obj v_exp = R[1];
-Obj v_obj = v_2318238_25;
+Obj v_obj = v_2318332_25;
 R[1] = v_obj;
-saveCont(co, clofun109, 1, R);
+saveCont(co, clofun110, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v_exp);
 return;
 }
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316813_25 = R[1];
-Obj v_2316814_25 = R[2];
-Obj v_2318231_25 = PRIM_EQ(Nil, v_2316814_25);
-if (True == v_2318231_25) {
-coraReturn(co, v_2316813_25);
+Obj v_2316893_25 = R[1];
+Obj v_2316894_25 = R[2];
+Obj v_2318325_25 = PRIM_EQ(Nil, v_2316894_25);
+if (True == v_2318325_25) {
+coraReturn(co, v_2316893_25);
 return;
 } else {
-Obj v_2318232_25 = PRIM_ISCONS(v_2316814_25);
-if (True == v_2318232_25) {
-Obj v_2318233_25 = PRIM_CAR(v_2316814_25);
-Obj v_hd = v_2318233_25;
-Obj v_2318234_25 = PRIM_CDR(v_2316814_25);
-Obj v_more = v_2318234_25;
-Obj v_2318235_25 = makeCons(co->gc, v_2316813_25, Nil);
-Obj v_2318236_25 = makeCons(co->gc, v_hd, v_2318235_25);
+Obj v_2318326_25 = PRIM_ISCONS(v_2316894_25);
+if (True == v_2318326_25) {
+Obj v_2318327_25 = PRIM_CAR(v_2316894_25);
+Obj v_hd = v_2318327_25;
+Obj v_2318328_25 = PRIM_CDR(v_2316894_25);
+Obj v_more = v_2318328_25;
+Obj v_2318329_25 = makeCons(co->gc, v_2316893_25, Nil);
+Obj v_2318330_25 = makeCons(co->gc, v_hd, v_2318329_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2318236_25, v_more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2318330_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2295,19 +2298,19 @@ return;
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun107, 6, R);
+saveCont(co, clofun108, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v_2318229_25= co->res;
+Obj v_2318323_25= co->res;
 Obj v_v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
@@ -2315,60 +2318,60 @@ return;
 }
 case 2:
 {
-Obj v_2318228_25= co->res;
+Obj v_2318322_25= co->res;
 Obj v_v = R[1];
-Obj v_e2 = v_2318228_25;
+Obj v_e2 = v_2318322_25;
 R[1] = v_v;
-saveCont(co, clofun107, 1, R);
+saveCont(co, clofun108, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, v_e2);
 return;
 }
 case 3:
 {
-Obj v_2318227_25= co->res;
+Obj v_2318321_25= co->res;
 Obj v_v = R[1];
-Obj v_e1 = v_2318227_25;
+Obj v_e1 = v_2318321_25;
 R[1] = v_v;
-saveCont(co, clofun107, 2, R);
+saveCont(co, clofun108, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), Nil, v_e1);
 return;
 }
 case 4:
 {
-Obj v_2318226_25= co->res;
+Obj v_2318320_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
-saveCont(co, clofun107, 3, R);
+saveCont(co, clofun108, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, v_exp);
 return;
 }
 case 5:
 {
-Obj v_2318225_25= co->res;
+Obj v_2318319_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_exp;
 R[2] = v_v;
-saveCont(co, clofun107, 4, R);
+saveCont(co, clofun108, 4, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v_2318224_25= co->res;
+Obj v_2318318_25= co->res;
 Obj v_exp = R[1];
-Obj v_v = v_2318224_25;
+Obj v_v = v_2318318_25;
 R[1] = v_exp;
 R[2] = v_v;
-saveCont(co, clofun107, 5, R);
+saveCont(co, clofun108, 5, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2380,7 +2383,7 @@ return;
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2392,7 +2395,7 @@ return;
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2404,20 +2407,20 @@ return;
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v_globals, v_exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), Nil, v_globals, v_exp);
 return;
 }
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2425,13 +2428,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
-saveCont(co, clofun102, 3, R);
+saveCont(co, clofun103, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v_2318218_25= co->res;
+Obj v_2318312_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
@@ -2439,27 +2442,27 @@ return;
 }
 case 2:
 {
-Obj v_2318217_25= co->res;
+Obj v_2318311_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun103, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v_2318216_25= co->res;
+Obj v_2318310_25= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
-saveCont(co, clofun102, 2, R);
+saveCont(co, clofun103, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2467,13 +2470,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
-saveCont(co, clofun101, 1, R);
+saveCont(co, clofun102, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v_2318214_25= co->res;
+Obj v_2318308_25= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2483,157 +2486,157 @@ return;
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316807_25 = R[1];
-Obj v_2316808_25 = R[2];
-Obj v_2316809_25 = R[3];
-Obj v_2316810_25 = R[4];
-Obj v_2316811_25 = R[5];
-Obj v_2316812_25 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj v_2318192_25 = PRIM_ISCONS(v_2316811_25);
-if (True == v_2318192_25) {
-Obj v_2318193_25 = PRIM_CAR(v_2316811_25);
-Obj v_2318194_25 = PRIM_EQ(getBinding(co, packageID, 63).name, v_2318193_25);
-if (True == v_2318194_25) {
-Obj v_2318195_25 = PRIM_CDR(v_2316811_25);
-Obj v_2318196_25 = PRIM_ISCONS(v_2318195_25);
-if (True == v_2318196_25) {
-Obj v_2318197_25 = PRIM_CDR(v_2316811_25);
-Obj v_2318198_25 = PRIM_CAR(v_2318197_25);
-Obj v_var = v_2318198_25;
-Obj v_2318199_25 = PRIM_CDR(v_2316811_25);
-Obj v_2318200_25 = PRIM_CDR(v_2318199_25);
-Obj v_2318201_25 = PRIM_ISCONS(v_2318200_25);
-if (True == v_2318201_25) {
-Obj v_2318202_25 = PRIM_CDR(v_2316811_25);
-Obj v_2318203_25 = PRIM_CDR(v_2318202_25);
-Obj v_2318204_25 = PRIM_CAR(v_2318203_25);
-Obj v_body = v_2318204_25;
-Obj v_2318205_25 = PRIM_CDR(v_2316811_25);
-Obj v_2318206_25 = PRIM_CDR(v_2318205_25);
-Obj v_2318207_25 = PRIM_CDR(v_2318206_25);
-Obj v_fvs = v_2318207_25;
+Obj v_2316887_25 = R[1];
+Obj v_2316888_25 = R[2];
+Obj v_2316889_25 = R[3];
+Obj v_2316890_25 = R[4];
+Obj v_2316891_25 = R[5];
+Obj v_2316892_25 = makeNative(co->gc, 1, clofun100, 0, 0);
+Obj v_2318286_25 = PRIM_ISCONS(v_2316891_25);
+if (True == v_2318286_25) {
+Obj v_2318287_25 = PRIM_CAR(v_2316891_25);
+Obj v_2318288_25 = PRIM_EQ(getBinding(co, packageID, 63).name, v_2318287_25);
+if (True == v_2318288_25) {
+Obj v_2318289_25 = PRIM_CDR(v_2316891_25);
+Obj v_2318290_25 = PRIM_ISCONS(v_2318289_25);
+if (True == v_2318290_25) {
+Obj v_2318291_25 = PRIM_CDR(v_2316891_25);
+Obj v_2318292_25 = PRIM_CAR(v_2318291_25);
+Obj v_var = v_2318292_25;
+Obj v_2318293_25 = PRIM_CDR(v_2316891_25);
+Obj v_2318294_25 = PRIM_CDR(v_2318293_25);
+Obj v_2318295_25 = PRIM_ISCONS(v_2318294_25);
+if (True == v_2318295_25) {
+Obj v_2318296_25 = PRIM_CDR(v_2316891_25);
+Obj v_2318297_25 = PRIM_CDR(v_2318296_25);
+Obj v_2318298_25 = PRIM_CAR(v_2318297_25);
+Obj v_body = v_2318298_25;
+Obj v_2318299_25 = PRIM_CDR(v_2316891_25);
+Obj v_2318300_25 = PRIM_CDR(v_2318299_25);
+Obj v_2318301_25 = PRIM_CDR(v_2318300_25);
+Obj v_fvs = v_2318301_25;
 R[1] = v_var;
 R[2] = v_fvs;
-R[3] = v_2316807_25;
-R[4] = v_2316808_25;
-R[5] = v_2316809_25;
-R[6] = v_2316810_25;
+R[3] = v_2316887_25;
+R[4] = v_2316888_25;
+R[5] = v_2316889_25;
+R[6] = v_2316890_25;
 R[7] = v_body;
-saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316810_25, makeCString(co->gc, "Obj "));
+saveCont(co, clofun101, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316890_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2316892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2316892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2316892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2316892_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318212_25= co->res;
-Obj v_2316807_25 = R[1];
-Obj v_2316808_25 = R[2];
-Obj v_2316809_25 = R[3];
-Obj v_2316810_25 = R[4];
+Obj v_2318306_25= co->res;
+Obj v_2316887_25 = R[1];
+Obj v_2316888_25 = R[2];
+Obj v_2316889_25 = R[3];
+Obj v_2316890_25 = R[4];
 Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v_2316807_25, v_2316808_25, v_2316809_25, v_2316810_25, v_body};
+Obj __args[5] = {v_2316887_25, v_2316888_25, v_2316889_25, v_2316890_25, v_body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v_2318211_25= co->res;
+Obj v_2318305_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2316807_25 = R[2];
-Obj v_2316808_25 = R[3];
-Obj v_2316809_25 = R[4];
-Obj v_2316810_25 = R[5];
+Obj v_2316887_25 = R[2];
+Obj v_2316888_25 = R[3];
+Obj v_2316889_25 = R[4];
+Obj v_2316890_25 = R[5];
 Obj v_body = R[6];
-R[1] = v_2316807_25;
-R[2] = v_2316808_25;
-R[3] = v_2316809_25;
-R[4] = v_2316810_25;
+R[1] = v_2316887_25;
+R[2] = v_2316888_25;
+R[3] = v_2316889_25;
+R[4] = v_2316890_25;
 R[5] = v_body;
-saveCont(co, clofun100, 1, R);
-Obj __args[5] = {v_2316807_25, v_2316808_25, v_2316809_25, v_2316810_25, v_fvs};
+saveCont(co, clofun101, 1, R);
+Obj __args[5] = {v_2316887_25, v_2316888_25, v_2316889_25, v_2316890_25, v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318210_25= co->res;
+Obj v_2318304_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2316807_25 = R[2];
-Obj v_2316808_25 = R[3];
-Obj v_2316809_25 = R[4];
-Obj v_2316810_25 = R[5];
+Obj v_2316887_25 = R[2];
+Obj v_2316888_25 = R[3];
+Obj v_2316889_25 = R[4];
+Obj v_2316890_25 = R[5];
 Obj v_body = R[6];
 R[1] = v_fvs;
-R[2] = v_2316807_25;
-R[3] = v_2316808_25;
-R[4] = v_2316809_25;
-R[5] = v_2316810_25;
+R[2] = v_2316887_25;
+R[3] = v_2316888_25;
+R[4] = v_2316889_25;
+R[5] = v_2316890_25;
 R[6] = v_body;
-saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316810_25, makeCString(co->gc, "= co->res;\n"));
+saveCont(co, clofun101, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316890_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v_2318208_25= co->res;
+Obj v_2318302_25= co->res;
 Obj v_var = R[1];
 Obj v_fvs = R[2];
-Obj v_2316807_25 = R[3];
-Obj v_2316808_25 = R[4];
-Obj v_2316809_25 = R[5];
-Obj v_2316810_25 = R[6];
+Obj v_2316887_25 = R[3];
+Obj v_2316888_25 = R[4];
+Obj v_2316889_25 = R[5];
+Obj v_2316890_25 = R[6];
 Obj v_body = R[7];
-Obj v_2318209_25 = PRIM_CAR(v_var);
+Obj v_2318303_25 = PRIM_CAR(v_var);
 R[1] = v_fvs;
-R[2] = v_2316807_25;
-R[3] = v_2316808_25;
-R[4] = v_2316809_25;
-R[5] = v_2316810_25;
+R[2] = v_2316887_25;
+R[3] = v_2316888_25;
+R[4] = v_2316889_25;
+R[5] = v_2316890_25;
 R[6] = v_body;
-saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2316810_25, v_2318209_25);
+saveCont(co, clofun101, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2316890_25, v_2318303_25);
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2642,109 +2645,109 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v_2318178_25 = primGenSym(co);
-Obj v_generate_2dinst_2dlist_2dh = v_2318178_25;
-Obj v_2318189_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun97, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+Obj v_2318272_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2318272_25;
+Obj v_2318283_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun98, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
 R[1] = v_l;
-saveCont(co, clofun98, 1, R);
+saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_generate_2dinst_2dlist_2dh);
 return;
 }
 case 1:
 {
-Obj v_2318190_25= co->res;
+Obj v_2318284_25= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318190_25, v_l);
+coraCall1(co, v_2318284_25, v_l);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318179_25 = PRIM_EQ(Nil, v_x);
-if (True == v_2318179_25) {
+Obj v_2318273_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2318273_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318180_25 = PRIM_ISCONS(v_x);
-if (True == v_2318180_25) {
-Obj v_2318181_25 = PRIM_CAR(v_x);
-Obj v_a = v_2318181_25;
-Obj v_2318182_25 = PRIM_CDR(v_x);
-Obj v_b = v_2318182_25;
+Obj v_2318274_25 = PRIM_ISCONS(v_x);
+if (True == v_2318274_25) {
+Obj v_2318275_25 = PRIM_CAR(v_x);
+Obj v_a = v_2318275_25;
+Obj v_2318276_25 = PRIM_CDR(v_x);
+Obj v_b = v_2318276_25;
 R[1] = v_b;
-saveCont(co, clofun97, 5, R);
+saveCont(co, clofun98, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318187_25= co->res;
+Obj v_2318281_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318187_25, v_b);
+coraCall1(co, v_2318281_25, v_b);
 return;
 }
 case 2:
 {
-Obj v_2318186_25= co->res;
+Obj v_2318280_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun97, 1, R);
+saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318188_25= co->res;
+Obj v_2318282_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318188_25, v_b);
+coraCall1(co, v_2318282_25, v_b);
 return;
 }
 case 4:
 {
-Obj v_2318184_25= co->res;
+Obj v_2318278_25= co->res;
 Obj v_b = R[1];
-Obj v_2318185_25 = primNot(v_2318184_25);
-if (True == v_2318185_25) {
+Obj v_2318279_25 = primNot(v_2318278_25);
+if (True == v_2318279_25) {
 R[1] = v_b;
-saveCont(co, clofun97, 2, R);
+saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 R[1] = v_b;
-saveCont(co, clofun97, 3, R);
+saveCont(co, clofun98, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v_2318183_25= co->res;
+Obj v_2318277_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun97, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_b);
+saveCont(co, clofun98, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_b);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2753,318 +2756,318 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v_2317891_25 = primGenSym(co);
-Obj v_generate_2dinst_2dh = v_2317891_25;
-Obj v_2318175_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun95, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+Obj v_2317985_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2317985_25;
+Obj v_2318269_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun96, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
-saveCont(co, clofun96, 1, R);
+saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_generate_2dinst_2dh);
 return;
 }
 case 1:
 {
-Obj v_2318176_25= co->res;
+Obj v_2318270_25= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2318176_25, v_x1, v_env1);
+coraCall2(co, v_2318270_25, v_x1, v_env1);
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v_2317892_25 = primIsSymbol(v_x2);
-if (True == v_2317892_25) {
+Obj v_2317986_25 = primIsSymbol(v_x2);
+if (True == v_2317986_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v_2316793_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v_2318162_25 = PRIM_ISCONS(v_x2);
-if (True == v_2318162_25) {
-Obj v_2318163_25 = PRIM_CAR(v_x2);
-Obj v_2318164_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318163_25);
-if (True == v_2318164_25) {
-Obj v_2318165_25 = PRIM_CDR(v_x2);
-Obj v_2318166_25 = PRIM_ISCONS(v_2318165_25);
-if (True == v_2318166_25) {
-Obj v_2318167_25 = PRIM_CDR(v_x2);
-Obj v_2318168_25 = PRIM_CAR(v_2318167_25);
-Obj v_x = v_2318168_25;
-Obj v_2318169_25 = PRIM_CDR(v_x2);
-Obj v_2318170_25 = PRIM_CDR(v_2318169_25);
-Obj v_2318171_25 = PRIM_EQ(Nil, v_2318170_25);
-if (True == v_2318171_25) {
+Obj v_2316873_25 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2318256_25 = PRIM_ISCONS(v_x2);
+if (True == v_2318256_25) {
+Obj v_2318257_25 = PRIM_CAR(v_x2);
+Obj v_2318258_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318257_25);
+if (True == v_2318258_25) {
+Obj v_2318259_25 = PRIM_CDR(v_x2);
+Obj v_2318260_25 = PRIM_ISCONS(v_2318259_25);
+if (True == v_2318260_25) {
+Obj v_2318261_25 = PRIM_CDR(v_x2);
+Obj v_2318262_25 = PRIM_CAR(v_2318261_25);
+Obj v_x = v_2318262_25;
+Obj v_2318263_25 = PRIM_CDR(v_x2);
+Obj v_2318264_25 = PRIM_CDR(v_2318263_25);
+Obj v_2318265_25 = PRIM_EQ(Nil, v_2318264_25);
+if (True == v_2318265_25) {
 R[1] = v_x;
-saveCont(co, clofun95, 3, R);
+saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2316873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2316873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2316873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2316873_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318174_25= co->res;
+Obj v_2318268_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v_2318173_25= co->res;
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2318173_25);
+Obj v_2318267_25= co->res;
+saveCont(co, clofun96, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2318267_25);
 return;
 }
 case 3:
 {
-Obj v_2318172_25= co->res;
+Obj v_2318266_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun95, 2, R);
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316794_25 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v_2318150_25 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v_2318150_25) {
-Obj v_2318151_25 = PRIM_CAR(closureRef(R[0], 4));
-Obj v_2318152_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318151_25);
-if (True == v_2318152_25) {
-Obj v_2318153_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318154_25 = PRIM_ISCONS(v_2318153_25);
-if (True == v_2318154_25) {
-Obj v_2318155_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318156_25 = PRIM_CAR(v_2318155_25);
-Obj v_idx = v_2318156_25;
-Obj v_2318157_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318158_25 = PRIM_CDR(v_2318157_25);
-Obj v_2318159_25 = PRIM_EQ(Nil, v_2318158_25);
-if (True == v_2318159_25) {
+Obj v_2316874_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2318244_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2318244_25) {
+Obj v_2318245_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2318246_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318245_25);
+if (True == v_2318246_25) {
+Obj v_2318247_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318248_25 = PRIM_ISCONS(v_2318247_25);
+if (True == v_2318248_25) {
+Obj v_2318249_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318250_25 = PRIM_CAR(v_2318249_25);
+Obj v_idx = v_2318250_25;
+Obj v_2318251_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2318252_25 = PRIM_CDR(v_2318251_25);
+Obj v_2318253_25 = PRIM_EQ(Nil, v_2318252_25);
+if (True == v_2318253_25) {
 R[1] = v_idx;
-saveCont(co, clofun94, 2, R);
+saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316794_25);
+coraCall0(co, v_2316874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316794_25);
+coraCall0(co, v_2316874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316794_25);
+coraCall0(co, v_2316874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316794_25);
+coraCall0(co, v_2316874_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318161_25= co->res;
+Obj v_2318255_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318160_25= co->res;
+Obj v_2318254_25= co->res;
 Obj v_idx = R[1];
-saveCont(co, clofun94, 1, R);
+saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_idx);
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316795_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2318126_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2318126_25) {
-Obj v_2318127_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2318128_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318127_25);
-if (True == v_2318128_25) {
-Obj v_2318129_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318130_25 = PRIM_ISCONS(v_2318129_25);
-if (True == v_2318130_25) {
-Obj v_2318131_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318132_25 = PRIM_CAR(v_2318131_25);
-Obj v_x = v_2318132_25;
-Obj v_2318133_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318134_25 = PRIM_CDR(v_2318133_25);
-Obj v_2318135_25 = PRIM_EQ(Nil, v_2318134_25);
-if (True == v_2318135_25) {
-Obj v_2318136_25 = primIsSymbol(v_x);
-if (True == v_2318136_25) {
+Obj v_2316875_25 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2318220_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2318220_25) {
+Obj v_2318221_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2318222_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318221_25);
+if (True == v_2318222_25) {
+Obj v_2318223_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318224_25 = PRIM_ISCONS(v_2318223_25);
+if (True == v_2318224_25) {
+Obj v_2318225_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318226_25 = PRIM_CAR(v_2318225_25);
+Obj v_x = v_2318226_25;
+Obj v_2318227_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2318228_25 = PRIM_CDR(v_2318227_25);
+Obj v_2318229_25 = PRIM_EQ(Nil, v_2318228_25);
+if (True == v_2318229_25) {
+Obj v_2318230_25 = primIsSymbol(v_x);
+if (True == v_2318230_25) {
 R[1] = v_x;
-saveCont(co, clofun93, 3, R);
+saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = v_x;
-saveCont(co, clofun93, 9, R);
+saveCont(co, clofun94, 9, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316795_25);
+coraCall0(co, v_2316875_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316795_25);
+coraCall0(co, v_2316875_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316795_25);
+coraCall0(co, v_2316875_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316795_25);
+coraCall0(co, v_2316875_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318139_25= co->res;
+Obj v_2318233_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v_2318138_25= co->res;
-saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318138_25);
+Obj v_2318232_25= co->res;
+saveCont(co, clofun94, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318232_25);
 return;
 }
 case 3:
 {
-Obj v_2318137_25= co->res;
+Obj v_2318231_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun93, 2, R);
+saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2318142_25= co->res;
+Obj v_2318236_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v_2318141_25= co->res;
+Obj v_2318235_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun93, 4, R);
+saveCont(co, clofun94, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_x);
 return;
 }
 case 6:
 {
-Obj v_2318146_25= co->res;
+Obj v_2318240_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v_2318145_25= co->res;
-saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318145_25);
+Obj v_2318239_25= co->res;
+saveCont(co, clofun94, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318239_25);
 return;
 }
 case 8:
 {
-Obj v_2318144_25= co->res;
+Obj v_2318238_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun93, 7, R);
+saveCont(co, clofun94, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_x);
 return;
 }
 case 9:
 {
-Obj v_2318140_25= co->res;
+Obj v_2318234_25= co->res;
 Obj v_x = R[1];
-if (True == v_2318140_25) {
+if (True == v_2318234_25) {
 R[1] = v_x;
-saveCont(co, clofun93, 5, R);
+saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v_2318143_25 = primIsString(v_x);
-if (True == v_2318143_25) {
+Obj v_2318237_25 = primIsString(v_x);
+if (True == v_2318237_25) {
 R[1] = v_x;
-saveCont(co, clofun93, 8, R);
+saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v_2318147_25 = PRIM_EQ(v_x, Nil);
-if (True == v_2318147_25) {
+Obj v_2318241_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2318241_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v_2318148_25 = PRIM_EQ(v_x, True);
-if (True == v_2318148_25) {
+Obj v_2318242_25 = PRIM_EQ(v_x, True);
+if (True == v_2318242_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v_2318149_25 = PRIM_EQ(v_x, False);
-if (True == v_2318149_25) {
+Obj v_2318243_25 = PRIM_EQ(v_x, False);
+if (True == v_2318243_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -3075,334 +3078,334 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316796_25 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2318091_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318091_25) {
-Obj v_2318092_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318093_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2318092_25);
-if (True == v_2318093_25) {
-Obj v_2318094_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318095_25 = PRIM_ISCONS(v_2318094_25);
-if (True == v_2318095_25) {
-Obj v_2318096_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318097_25 = PRIM_CAR(v_2318096_25);
-Obj v_a = v_2318097_25;
-Obj v_2318098_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318099_25 = PRIM_CDR(v_2318098_25);
-Obj v_2318100_25 = PRIM_ISCONS(v_2318099_25);
-if (True == v_2318100_25) {
-Obj v_2318101_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318102_25 = PRIM_CDR(v_2318101_25);
-Obj v_2318103_25 = PRIM_CAR(v_2318102_25);
-Obj v_b = v_2318103_25;
-Obj v_2318104_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318105_25 = PRIM_CDR(v_2318104_25);
-Obj v_2318106_25 = PRIM_CDR(v_2318105_25);
-Obj v_2318107_25 = PRIM_ISCONS(v_2318106_25);
-if (True == v_2318107_25) {
-Obj v_2318108_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318109_25 = PRIM_CDR(v_2318108_25);
-Obj v_2318110_25 = PRIM_CDR(v_2318109_25);
-Obj v_2318111_25 = PRIM_CAR(v_2318110_25);
-Obj v_c = v_2318111_25;
-Obj v_2318112_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318113_25 = PRIM_CDR(v_2318112_25);
-Obj v_2318114_25 = PRIM_CDR(v_2318113_25);
-Obj v_2318115_25 = PRIM_CDR(v_2318114_25);
-Obj v_2318116_25 = PRIM_EQ(Nil, v_2318115_25);
-if (True == v_2318116_25) {
+Obj v_2316876_25 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2318185_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318185_25) {
+Obj v_2318186_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318187_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2318186_25);
+if (True == v_2318187_25) {
+Obj v_2318188_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318189_25 = PRIM_ISCONS(v_2318188_25);
+if (True == v_2318189_25) {
+Obj v_2318190_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318191_25 = PRIM_CAR(v_2318190_25);
+Obj v_a = v_2318191_25;
+Obj v_2318192_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318193_25 = PRIM_CDR(v_2318192_25);
+Obj v_2318194_25 = PRIM_ISCONS(v_2318193_25);
+if (True == v_2318194_25) {
+Obj v_2318195_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318196_25 = PRIM_CDR(v_2318195_25);
+Obj v_2318197_25 = PRIM_CAR(v_2318196_25);
+Obj v_b = v_2318197_25;
+Obj v_2318198_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318199_25 = PRIM_CDR(v_2318198_25);
+Obj v_2318200_25 = PRIM_CDR(v_2318199_25);
+Obj v_2318201_25 = PRIM_ISCONS(v_2318200_25);
+if (True == v_2318201_25) {
+Obj v_2318202_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318203_25 = PRIM_CDR(v_2318202_25);
+Obj v_2318204_25 = PRIM_CDR(v_2318203_25);
+Obj v_2318205_25 = PRIM_CAR(v_2318204_25);
+Obj v_c = v_2318205_25;
+Obj v_2318206_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318207_25 = PRIM_CDR(v_2318206_25);
+Obj v_2318208_25 = PRIM_CDR(v_2318207_25);
+Obj v_2318209_25 = PRIM_CDR(v_2318208_25);
+Obj v_2318210_25 = PRIM_EQ(Nil, v_2318209_25);
+if (True == v_2318210_25) {
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun92, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_a, closureRef(R[0], 5));
+saveCont(co, clofun93, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v_a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316796_25);
+coraCall0(co, v_2316876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316796_25);
+coraCall0(co, v_2316876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316796_25);
+coraCall0(co, v_2316876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316796_25);
+coraCall0(co, v_2316876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316796_25);
+coraCall0(co, v_2316876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316796_25);
+coraCall0(co, v_2316876_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318124_25= co->res;
+Obj v_2318218_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_2318125_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
+Obj v_2318219_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v_2318124_25, v_c, v_2318125_25);
+coraCall2(co, v_2318218_25, v_c, v_2318219_25);
 return;
 }
 case 2:
 {
-Obj v_2318123_25= co->res;
+Obj v_2318217_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318122_25= co->res;
+Obj v_2318216_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun92, 2, R);
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2318121_25= co->res;
+Obj v_2318215_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun92, 3, R);
-coraCall2(co, v_2318121_25, v_b, closureRef(R[0], 5));
+saveCont(co, clofun93, 3, R);
+coraCall2(co, v_2318215_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v_2318120_25= co->res;
+Obj v_2318214_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun92, 4, R);
+saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2318119_25= co->res;
+Obj v_2318213_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun92, 5, R);
+saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v_2318118_25= co->res;
+Obj v_2318212_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun92, 6, R);
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_a);
 return;
 }
 case 8:
 {
-Obj v_2318117_25= co->res;
+Obj v_2318211_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun92, 7, R);
+saveCont(co, clofun93, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316797_25 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318061_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318061_25) {
-Obj v_2318062_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318063_25 = PRIM_ISCONS(v_2318062_25);
-if (True == v_2318063_25) {
-Obj v_2318064_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318065_25 = PRIM_CAR(v_2318064_25);
-Obj v_2318066_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318065_25);
-if (True == v_2318066_25) {
-Obj v_2318067_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318068_25 = PRIM_CDR(v_2318067_25);
-Obj v_2318069_25 = PRIM_ISCONS(v_2318068_25);
-if (True == v_2318069_25) {
-Obj v_2318070_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318071_25 = PRIM_CDR(v_2318070_25);
-Obj v_2318072_25 = PRIM_CAR(v_2318071_25);
-Obj v_f = v_2318072_25;
-Obj v_2318073_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318074_25 = PRIM_CDR(v_2318073_25);
-Obj v_2318075_25 = PRIM_CDR(v_2318074_25);
-Obj v_2318076_25 = PRIM_EQ(Nil, v_2318075_25);
-if (True == v_2318076_25) {
-Obj v_2318077_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_args = v_2318077_25;
+Obj v_2316877_25 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318155_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318155_25) {
+Obj v_2318156_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318157_25 = PRIM_ISCONS(v_2318156_25);
+if (True == v_2318157_25) {
+Obj v_2318158_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318159_25 = PRIM_CAR(v_2318158_25);
+Obj v_2318160_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318159_25);
+if (True == v_2318160_25) {
+Obj v_2318161_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318162_25 = PRIM_CDR(v_2318161_25);
+Obj v_2318163_25 = PRIM_ISCONS(v_2318162_25);
+if (True == v_2318163_25) {
+Obj v_2318164_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318165_25 = PRIM_CDR(v_2318164_25);
+Obj v_2318166_25 = PRIM_CAR(v_2318165_25);
+Obj v_f = v_2318166_25;
+Obj v_2318167_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318168_25 = PRIM_CDR(v_2318167_25);
+Obj v_2318169_25 = PRIM_CDR(v_2318168_25);
+Obj v_2318170_25 = PRIM_EQ(Nil, v_2318169_25);
+if (True == v_2318170_25) {
+Obj v_2318171_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2318171_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun91, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_f);
+saveCont(co, clofun92, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316797_25);
+coraCall0(co, v_2316877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316797_25);
+coraCall0(co, v_2316877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316797_25);
+coraCall0(co, v_2316877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316797_25);
+coraCall0(co, v_2316877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316797_25);
+coraCall0(co, v_2316877_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318082_25= co->res;
+Obj v_2318176_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318081_25= co->res;
+Obj v_2318175_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun91, 1, R);
+saveCont(co, clofun92, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318085_25= co->res;
+Obj v_2318179_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v_2318084_25= co->res;
+Obj v_2318178_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun91, 3, R);
+saveCont(co, clofun92, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v_2318088_25= co->res;
+Obj v_2318182_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v_2318087_25= co->res;
+Obj v_2318181_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun91, 5, R);
+saveCont(co, clofun92, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2318090_25= co->res;
+Obj v_2318184_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v_2318089_25= co->res;
+Obj v_2318183_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun91, 7, R);
+saveCont(co, clofun92, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2318079_25= co->res;
+Obj v_2318173_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318080_25 = PRIM_EQ(v_f, getBinding(co, packageID, 122).name);
-if (True == v_2318080_25) {
+Obj v_2318174_25 = PRIM_EQ(v_f, getBinding(co, packageID, 123).name);
+if (True == v_2318174_25) {
 R[1] = v_args;
-saveCont(co, clofun91, 2, R);
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v_2318083_25 = PRIM_EQ(v_f, getBinding(co, packageID, 110).name);
-if (True == v_2318083_25) {
+Obj v_2318177_25 = PRIM_EQ(v_f, getBinding(co, packageID, 111).name);
+if (True == v_2318177_25) {
 R[1] = v_args;
-saveCont(co, clofun91, 4, R);
+saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v_2318086_25 = PRIM_EQ(v_f, getBinding(co, packageID, 119).name);
-if (True == v_2318086_25) {
+Obj v_2318180_25 = PRIM_EQ(v_f, getBinding(co, packageID, 120).name);
+if (True == v_2318180_25) {
 R[1] = v_args;
-saveCont(co, clofun91, 6, R);
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = v_args;
-saveCont(co, clofun91, 8, R);
+saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3411,284 +3414,284 @@ return;
 }
 case 10:
 {
-Obj v_2318078_25= co->res;
+Obj v_2318172_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318078_25);
+saveCont(co, clofun92, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318172_25);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316798_25 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318026_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318026_25) {
-Obj v_2318027_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318028_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2318027_25);
-if (True == v_2318028_25) {
-Obj v_2318029_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318030_25 = PRIM_ISCONS(v_2318029_25);
-if (True == v_2318030_25) {
-Obj v_2318031_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318032_25 = PRIM_CAR(v_2318031_25);
-Obj v_a = v_2318032_25;
-Obj v_2318033_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318034_25 = PRIM_CDR(v_2318033_25);
-Obj v_2318035_25 = PRIM_ISCONS(v_2318034_25);
-if (True == v_2318035_25) {
-Obj v_2318036_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318037_25 = PRIM_CDR(v_2318036_25);
-Obj v_2318038_25 = PRIM_CAR(v_2318037_25);
-Obj v_b = v_2318038_25;
-Obj v_2318039_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318040_25 = PRIM_CDR(v_2318039_25);
-Obj v_2318041_25 = PRIM_CDR(v_2318040_25);
-Obj v_2318042_25 = PRIM_ISCONS(v_2318041_25);
-if (True == v_2318042_25) {
-Obj v_2318043_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318044_25 = PRIM_CDR(v_2318043_25);
-Obj v_2318045_25 = PRIM_CDR(v_2318044_25);
-Obj v_2318046_25 = PRIM_CAR(v_2318045_25);
-Obj v_c = v_2318046_25;
-Obj v_2318047_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318048_25 = PRIM_CDR(v_2318047_25);
-Obj v_2318049_25 = PRIM_CDR(v_2318048_25);
-Obj v_2318050_25 = PRIM_CDR(v_2318049_25);
-Obj v_2318051_25 = PRIM_EQ(Nil, v_2318050_25);
-if (True == v_2318051_25) {
+Obj v_2316878_25 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318120_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318120_25) {
+Obj v_2318121_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318122_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2318121_25);
+if (True == v_2318122_25) {
+Obj v_2318123_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318124_25 = PRIM_ISCONS(v_2318123_25);
+if (True == v_2318124_25) {
+Obj v_2318125_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318126_25 = PRIM_CAR(v_2318125_25);
+Obj v_a = v_2318126_25;
+Obj v_2318127_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318128_25 = PRIM_CDR(v_2318127_25);
+Obj v_2318129_25 = PRIM_ISCONS(v_2318128_25);
+if (True == v_2318129_25) {
+Obj v_2318130_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318131_25 = PRIM_CDR(v_2318130_25);
+Obj v_2318132_25 = PRIM_CAR(v_2318131_25);
+Obj v_b = v_2318132_25;
+Obj v_2318133_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318134_25 = PRIM_CDR(v_2318133_25);
+Obj v_2318135_25 = PRIM_CDR(v_2318134_25);
+Obj v_2318136_25 = PRIM_ISCONS(v_2318135_25);
+if (True == v_2318136_25) {
+Obj v_2318137_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318138_25 = PRIM_CDR(v_2318137_25);
+Obj v_2318139_25 = PRIM_CDR(v_2318138_25);
+Obj v_2318140_25 = PRIM_CAR(v_2318139_25);
+Obj v_c = v_2318140_25;
+Obj v_2318141_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318142_25 = PRIM_CDR(v_2318141_25);
+Obj v_2318143_25 = PRIM_CDR(v_2318142_25);
+Obj v_2318144_25 = PRIM_CDR(v_2318143_25);
+Obj v_2318145_25 = PRIM_EQ(Nil, v_2318144_25);
+if (True == v_2318145_25) {
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
-saveCont(co, clofun90, 9, R);
+saveCont(co, clofun91, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316798_25);
+coraCall0(co, v_2316878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316798_25);
+coraCall0(co, v_2316878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316798_25);
+coraCall0(co, v_2316878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316798_25);
+coraCall0(co, v_2316878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316798_25);
+coraCall0(co, v_2316878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316798_25);
+coraCall0(co, v_2316878_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318060_25= co->res;
+Obj v_2318154_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v_2318059_25= co->res;
+Obj v_2318153_25= co->res;
 Obj v_c = R[1];
-saveCont(co, clofun90, 1, R);
-coraCall2(co, v_2318059_25, v_c, closureRef(R[0], 4));
+saveCont(co, clofun91, 1, R);
+coraCall2(co, v_2318153_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318058_25= co->res;
+Obj v_2318152_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
-saveCont(co, clofun90, 2, R);
+saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2318057_25= co->res;
+Obj v_2318151_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
-saveCont(co, clofun90, 3, R);
+saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v_2318056_25= co->res;
+Obj v_2318150_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_c;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, v_2318056_25, v_b, closureRef(R[0], 4));
+saveCont(co, clofun91, 4, R);
+coraCall2(co, v_2318150_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2318055_25= co->res;
+Obj v_2318149_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun90, 5, R);
+saveCont(co, clofun91, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v_2318054_25= co->res;
+Obj v_2318148_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun90, 6, R);
+saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v_2318053_25= co->res;
+Obj v_2318147_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun90, 7, R);
-coraCall2(co, v_2318053_25, v_a, closureRef(R[0], 4));
+saveCont(co, clofun91, 7, R);
+coraCall2(co, v_2318147_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v_2318052_25= co->res;
+Obj v_2318146_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
-saveCont(co, clofun90, 8, R);
+saveCont(co, clofun91, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316799_25 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v_2317988_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317988_25) {
-Obj v_2317989_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317990_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317989_25);
-if (True == v_2317990_25) {
-Obj v_2317991_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317992_25 = PRIM_ISCONS(v_2317991_25);
-if (True == v_2317992_25) {
-Obj v_2317993_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317994_25 = PRIM_CAR(v_2317993_25);
-Obj v_label = v_2317994_25;
-Obj v_2317995_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317996_25 = PRIM_CDR(v_2317995_25);
-Obj v_2317997_25 = PRIM_ISCONS(v_2317996_25);
-if (True == v_2317997_25) {
-Obj v_2317998_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317999_25 = PRIM_CDR(v_2317998_25);
-Obj v_2318000_25 = PRIM_CAR(v_2317999_25);
-Obj v_nargs = v_2318000_25;
-Obj v_2318001_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318002_25 = PRIM_CDR(v_2318001_25);
-Obj v_2318003_25 = PRIM_CDR(v_2318002_25);
-Obj v_2318004_25 = PRIM_ISCONS(v_2318003_25);
-if (True == v_2318004_25) {
-Obj v_2318005_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318006_25 = PRIM_CDR(v_2318005_25);
-Obj v_2318007_25 = PRIM_CDR(v_2318006_25);
-Obj v_2318008_25 = PRIM_CAR(v_2318007_25);
-Obj v_nframe = v_2318008_25;
-Obj v_2318009_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318010_25 = PRIM_CDR(v_2318009_25);
-Obj v_2318011_25 = PRIM_CDR(v_2318010_25);
-Obj v_2318012_25 = PRIM_CDR(v_2318011_25);
-Obj v_frees = v_2318012_25;
+Obj v_2316879_25 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2318082_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318082_25) {
+Obj v_2318083_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318084_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318083_25);
+if (True == v_2318084_25) {
+Obj v_2318085_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318086_25 = PRIM_ISCONS(v_2318085_25);
+if (True == v_2318086_25) {
+Obj v_2318087_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318088_25 = PRIM_CAR(v_2318087_25);
+Obj v_label = v_2318088_25;
+Obj v_2318089_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318090_25 = PRIM_CDR(v_2318089_25);
+Obj v_2318091_25 = PRIM_ISCONS(v_2318090_25);
+if (True == v_2318091_25) {
+Obj v_2318092_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318093_25 = PRIM_CDR(v_2318092_25);
+Obj v_2318094_25 = PRIM_CAR(v_2318093_25);
+Obj v_nargs = v_2318094_25;
+Obj v_2318095_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318096_25 = PRIM_CDR(v_2318095_25);
+Obj v_2318097_25 = PRIM_CDR(v_2318096_25);
+Obj v_2318098_25 = PRIM_ISCONS(v_2318097_25);
+if (True == v_2318098_25) {
+Obj v_2318099_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318100_25 = PRIM_CDR(v_2318099_25);
+Obj v_2318101_25 = PRIM_CDR(v_2318100_25);
+Obj v_2318102_25 = PRIM_CAR(v_2318101_25);
+Obj v_nframe = v_2318102_25;
+Obj v_2318103_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318104_25 = PRIM_CDR(v_2318103_25);
+Obj v_2318105_25 = PRIM_CDR(v_2318104_25);
+Obj v_2318106_25 = PRIM_CDR(v_2318105_25);
+Obj v_frees = v_2318106_25;
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_nargs;
 R[4] = v_frees;
-saveCont(co, clofun89, 12, R);
+saveCont(co, clofun90, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2316879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2316879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2316879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2316879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2316879_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318025_25= co->res;
+Obj v_2318119_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318024_25= co->res;
+Obj v_2318118_25= co->res;
 Obj v_frees = R[1];
-saveCont(co, clofun89, 1, R);
+saveCont(co, clofun90, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318022_25= co->res;
+Obj v_2318116_25= co->res;
 Obj v_frees = R[1];
-Obj v_2318023_25 = primNot(v_2318022_25);
-if (True == v_2318023_25) {
+Obj v_2318117_25 = primNot(v_2318116_25);
+if (True == v_2318117_25) {
 R[1] = v_frees;
-saveCont(co, clofun89, 2, R);
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3700,89 +3703,89 @@ return;
 }
 case 4:
 {
-Obj v_2318021_25= co->res;
+Obj v_2318115_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun89, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_frees);
+saveCont(co, clofun90, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_frees);
 return;
 }
 case 5:
 {
-Obj v_2318020_25= co->res;
+Obj v_2318114_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318020_25);
+saveCont(co, clofun90, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318114_25);
 return;
 }
 case 6:
 {
-Obj v_2318019_25= co->res;
+Obj v_2318113_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun89, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_frees);
+saveCont(co, clofun90, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_frees);
 return;
 }
 case 7:
 {
-Obj v_2318018_25= co->res;
+Obj v_2318112_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun89, 6, R);
+saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v_2318017_25= co->res;
+Obj v_2318111_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_frees;
-saveCont(co, clofun89, 7, R);
+saveCont(co, clofun90, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 9:
 {
-Obj v_2318016_25= co->res;
+Obj v_2318110_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_nargs;
 R[2] = v_frees;
-saveCont(co, clofun89, 8, R);
+saveCont(co, clofun90, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v_2318015_25= co->res;
+Obj v_2318109_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_nargs;
 R[2] = v_frees;
-saveCont(co, clofun89, 9, R);
+saveCont(co, clofun90, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), v_label);
 return;
 }
 case 11:
 {
-Obj v_2318014_25= co->res;
+Obj v_2318108_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
-saveCont(co, clofun89, 10, R);
+saveCont(co, clofun90, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v_2318013_25= co->res;
+Obj v_2318107_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_nargs = R[3];
@@ -3790,549 +3793,549 @@ Obj v_frees = R[4];
 R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
-saveCont(co, clofun89, 11, R);
+saveCont(co, clofun90, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nframe);
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316800_25 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2317967_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317967_25) {
-Obj v_2317968_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317969_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317968_25);
-if (True == v_2317969_25) {
-Obj v_2317970_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317971_25 = PRIM_ISCONS(v_2317970_25);
-if (True == v_2317971_25) {
-Obj v_2317972_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317973_25 = PRIM_CAR(v_2317972_25);
-Obj v_a = v_2317973_25;
-Obj v_2317974_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317975_25 = PRIM_CDR(v_2317974_25);
-Obj v_2317976_25 = PRIM_ISCONS(v_2317975_25);
-if (True == v_2317976_25) {
-Obj v_2317977_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317978_25 = PRIM_CDR(v_2317977_25);
-Obj v_2317979_25 = PRIM_CAR(v_2317978_25);
-Obj v_b = v_2317979_25;
-Obj v_2317980_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317981_25 = PRIM_CDR(v_2317980_25);
-Obj v_2317982_25 = PRIM_CDR(v_2317981_25);
-Obj v_2317983_25 = PRIM_EQ(Nil, v_2317982_25);
-if (True == v_2317983_25) {
+Obj v_2316880_25 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2318061_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318061_25) {
+Obj v_2318062_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318063_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2318062_25);
+if (True == v_2318063_25) {
+Obj v_2318064_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318065_25 = PRIM_ISCONS(v_2318064_25);
+if (True == v_2318065_25) {
+Obj v_2318066_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318067_25 = PRIM_CAR(v_2318066_25);
+Obj v_a = v_2318067_25;
+Obj v_2318068_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318069_25 = PRIM_CDR(v_2318068_25);
+Obj v_2318070_25 = PRIM_ISCONS(v_2318069_25);
+if (True == v_2318070_25) {
+Obj v_2318071_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318072_25 = PRIM_CDR(v_2318071_25);
+Obj v_2318073_25 = PRIM_CAR(v_2318072_25);
+Obj v_b = v_2318073_25;
+Obj v_2318074_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318075_25 = PRIM_CDR(v_2318074_25);
+Obj v_2318076_25 = PRIM_CDR(v_2318075_25);
+Obj v_2318077_25 = PRIM_EQ(Nil, v_2318076_25);
+if (True == v_2318077_25) {
 R[1] = v_a;
 R[2] = v_b;
-saveCont(co, clofun88, 4, R);
+saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316800_25);
+coraCall0(co, v_2316880_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316800_25);
+coraCall0(co, v_2316880_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316800_25);
+coraCall0(co, v_2316880_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316800_25);
+coraCall0(co, v_2316880_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316800_25);
+coraCall0(co, v_2316880_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317987_25= co->res;
+Obj v_2318081_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, v_2317987_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2318081_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v_2317986_25= co->res;
+Obj v_2318080_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun88, 1, R);
+saveCont(co, clofun89, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317985_25= co->res;
+Obj v_2318079_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun88, 2, R);
+saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2317984_25= co->res;
+Obj v_2318078_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 R[1] = v_b;
-saveCont(co, clofun88, 3, R);
-coraCall2(co, v_2317984_25, v_a, closureRef(R[0], 5));
+saveCont(co, clofun89, 3, R);
+coraCall2(co, v_2318078_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316801_25 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317953_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317953_25) {
-Obj v_2317954_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317955_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317954_25);
-if (True == v_2317955_25) {
-Obj v_2317956_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317957_25 = PRIM_ISCONS(v_2317956_25);
-if (True == v_2317957_25) {
-Obj v_2317958_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317959_25 = PRIM_CAR(v_2317958_25);
-Obj v_x = v_2317959_25;
-Obj v_2317960_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317961_25 = PRIM_CDR(v_2317960_25);
-Obj v_2317962_25 = PRIM_EQ(Nil, v_2317961_25);
-if (True == v_2317962_25) {
+Obj v_2316881_25 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318047_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318047_25) {
+Obj v_2318048_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318049_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2318048_25);
+if (True == v_2318049_25) {
+Obj v_2318050_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318051_25 = PRIM_ISCONS(v_2318050_25);
+if (True == v_2318051_25) {
+Obj v_2318052_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318053_25 = PRIM_CAR(v_2318052_25);
+Obj v_x = v_2318053_25;
+Obj v_2318054_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318055_25 = PRIM_CDR(v_2318054_25);
+Obj v_2318056_25 = PRIM_EQ(Nil, v_2318055_25);
+if (True == v_2318056_25) {
 R[1] = v_x;
-saveCont(co, clofun87, 4, R);
+saveCont(co, clofun88, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316801_25);
+coraCall0(co, v_2316881_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316801_25);
+coraCall0(co, v_2316881_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316801_25);
+coraCall0(co, v_2316881_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316801_25);
+coraCall0(co, v_2316881_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317966_25= co->res;
+Obj v_2318060_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2317965_25= co->res;
-saveCont(co, clofun87, 1, R);
+Obj v_2318059_25= co->res;
+saveCont(co, clofun88, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v_2317964_25= co->res;
+Obj v_2318058_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun87, 2, R);
-coraCall2(co, v_2317964_25, v_x, closureRef(R[0], 4));
+saveCont(co, clofun88, 2, R);
+coraCall2(co, v_2318058_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2317963_25= co->res;
+Obj v_2318057_25= co->res;
 Obj v_x = R[1];
 R[1] = v_x;
-saveCont(co, clofun87, 3, R);
+saveCont(co, clofun88, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316802_25 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317940_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2317940_25) {
-Obj v_2317941_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2317942_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317941_25);
-if (True == v_2317942_25) {
-Obj v_2317943_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317944_25 = PRIM_ISCONS(v_2317943_25);
-if (True == v_2317944_25) {
-Obj v_2317945_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317946_25 = PRIM_CAR(v_2317945_25);
-Obj v_exp = v_2317946_25;
-Obj v_2317947_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2317948_25 = PRIM_CDR(v_2317947_25);
-Obj v_2317949_25 = PRIM_EQ(Nil, v_2317948_25);
-if (True == v_2317949_25) {
+Obj v_2316882_25 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318034_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318034_25) {
+Obj v_2318035_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318036_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2318035_25);
+if (True == v_2318036_25) {
+Obj v_2318037_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318038_25 = PRIM_ISCONS(v_2318037_25);
+if (True == v_2318038_25) {
+Obj v_2318039_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318040_25 = PRIM_CAR(v_2318039_25);
+Obj v_exp = v_2318040_25;
+Obj v_2318041_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318042_25 = PRIM_CDR(v_2318041_25);
+Obj v_2318043_25 = PRIM_EQ(Nil, v_2318042_25);
+if (True == v_2318043_25) {
 R[1] = v_exp;
-saveCont(co, clofun86, 3, R);
+saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316802_25);
+coraCall0(co, v_2316882_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316802_25);
+coraCall0(co, v_2316882_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316802_25);
+coraCall0(co, v_2316882_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316802_25);
+coraCall0(co, v_2316882_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317952_25= co->res;
+Obj v_2318046_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2317951_25= co->res;
+Obj v_2318045_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, v_2317951_25, v_exp, closureRef(R[0], 4));
+saveCont(co, clofun87, 1, R);
+coraCall2(co, v_2318045_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317950_25= co->res;
+Obj v_2318044_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun86, 2, R);
+saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316803_25 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2317916_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317916_25) {
-Obj v_2317917_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317918_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317917_25);
-if (True == v_2317918_25) {
-Obj v_2317919_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317920_25 = PRIM_ISCONS(v_2317919_25);
-if (True == v_2317920_25) {
-Obj v_2317921_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317922_25 = PRIM_CAR(v_2317921_25);
-Obj v_exp = v_2317922_25;
-Obj v_2317923_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317924_25 = PRIM_CDR(v_2317923_25);
-Obj v_2317925_25 = PRIM_ISCONS(v_2317924_25);
-if (True == v_2317925_25) {
-Obj v_2317926_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317927_25 = PRIM_CDR(v_2317926_25);
-Obj v_2317928_25 = PRIM_CAR(v_2317927_25);
-Obj v_label = v_2317928_25;
-Obj v_2317929_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317930_25 = PRIM_CDR(v_2317929_25);
-Obj v_2317931_25 = PRIM_CDR(v_2317930_25);
-Obj v_fvs = v_2317931_25;
+Obj v_2316883_25 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318010_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318010_25) {
+Obj v_2318011_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318012_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2318011_25);
+if (True == v_2318012_25) {
+Obj v_2318013_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318014_25 = PRIM_ISCONS(v_2318013_25);
+if (True == v_2318014_25) {
+Obj v_2318015_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318016_25 = PRIM_CAR(v_2318015_25);
+Obj v_exp = v_2318016_25;
+Obj v_2318017_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318018_25 = PRIM_CDR(v_2318017_25);
+Obj v_2318019_25 = PRIM_ISCONS(v_2318018_25);
+if (True == v_2318019_25) {
+Obj v_2318020_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318021_25 = PRIM_CDR(v_2318020_25);
+Obj v_2318022_25 = PRIM_CAR(v_2318021_25);
+Obj v_label = v_2318022_25;
+Obj v_2318023_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318024_25 = PRIM_CDR(v_2318023_25);
+Obj v_2318025_25 = PRIM_CDR(v_2318024_25);
+Obj v_fvs = v_2318025_25;
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun85, 8, R);
+saveCont(co, clofun86, 8, R);
 Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316803_25);
+coraCall0(co, v_2316883_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316803_25);
+coraCall0(co, v_2316883_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316803_25);
+coraCall0(co, v_2316883_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316803_25);
+coraCall0(co, v_2316883_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317939_25= co->res;
+Obj v_2318033_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2317938_25= co->res;
+Obj v_2318032_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun85, 1, R);
-coraCall2(co, v_2317938_25, v_exp, closureRef(R[0], 4));
+saveCont(co, clofun86, 1, R);
+coraCall2(co, v_2318032_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317937_25= co->res;
+Obj v_2318031_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun85, 2, R);
+saveCont(co, clofun86, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2317936_25= co->res;
+Obj v_2318030_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun85, 3, R);
+saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v_2317935_25= co->res;
+Obj v_2318029_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun85, 4, R);
+saveCont(co, clofun86, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_label);
 return;
 }
 case 6:
 {
-Obj v_2317934_25= co->res;
+Obj v_2318028_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun85, 5, R);
+saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v_2317933_25= co->res;
+Obj v_2318027_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun85, 6, R);
+saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v_2317932_25= co->res;
+Obj v_2318026_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun85, 7, R);
+saveCont(co, clofun86, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317893_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317893_25) {
-Obj v_2317894_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317894_25;
-Obj v_2317895_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317895_25;
+Obj v_2317987_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317987_25) {
+Obj v_2317988_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317988_25;
+Obj v_2317989_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317989_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun84, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_args);
+saveCont(co, clofun85, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317907_25= co->res;
+Obj v_2318001_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v_2317906_25= co->res;
+Obj v_2318000_25= co->res;
 Obj v_nargs = R[1];
-saveCont(co, clofun84, 1, R);
+saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 3:
 {
-Obj v_2317905_25= co->res;
+Obj v_2317999_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
-saveCont(co, clofun84, 2, R);
+saveCont(co, clofun85, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v_2317904_25= co->res;
+Obj v_2317998_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_nargs;
-saveCont(co, clofun84, 3, R);
-coraCall2(co, v_2317904_25, v_f, closureRef(R[0], 4));
+saveCont(co, clofun85, 3, R);
+coraCall2(co, v_2317998_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v_2317903_25= co->res;
+Obj v_2317997_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun84, 4, R);
+saveCont(co, clofun85, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v_2317902_25= co->res;
+Obj v_2317996_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun84, 5, R);
+saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v_2317901_25= co->res;
+Obj v_2317995_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun84, 6, R);
+saveCont(co, clofun85, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v_2317900_25= co->res;
+Obj v_2317994_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun84, 7, R);
+saveCont(co, clofun85, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2317899_25= co->res;
+Obj v_2317993_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun84, 8, R);
+saveCont(co, clofun85, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v_2317898_25= co->res;
+Obj v_2317992_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun84, 9, R);
+saveCont(co, clofun85, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 11:
 {
-Obj v_2317915_25= co->res;
+Obj v_2318009_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v_2317914_25= co->res;
+Obj v_2318008_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun84, 11, R);
+saveCont(co, clofun85, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v_2317912_25= co->res;
+Obj v_2318006_25= co->res;
 Obj v_nargs = R[1];
 Obj v_args = R[2];
-Obj v_2317913_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
-if (True == v_2317913_25) {
+Obj v_2318007_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2318007_25) {
 R[1] = v_args;
-saveCont(co, clofun84, 12, R);
+saveCont(co, clofun85, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4344,74 +4347,74 @@ return;
 }
 case 14:
 {
-Obj v_2317911_25= co->res;
+Obj v_2318005_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_nargs;
 R[2] = v_args;
-saveCont(co, clofun84, 13, R);
-coraCall2(co, v_2317911_25, v_f, closureRef(R[0], 4));
+saveCont(co, clofun85, 13, R);
+coraCall2(co, v_2318005_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v_2317910_25= co->res;
+Obj v_2318004_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun84, 14, R);
+saveCont(co, clofun85, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v_2317909_25= co->res;
+Obj v_2318003_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun84, 15, R);
+saveCont(co, clofun85, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v_2317908_25= co->res;
+Obj v_2318002_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun84, 16, R);
+saveCont(co, clofun85, 16, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 18:
 {
-Obj v_2317896_25= co->res;
+Obj v_2317990_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_nargs = v_2317896_25;
-Obj v_2317897_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
-if (True == v_2317897_25) {
+Obj v_nargs = v_2317990_25;
+Obj v_2317991_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2317991_25) {
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun84, 10, R);
+saveCont(co, clofun85, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun84, 17, R);
+saveCont(co, clofun85, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4419,7 +4422,7 @@ return;
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4429,13 +4432,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun83, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4443,52 +4446,52 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun82, 5, R);
+saveCont(co, clofun83, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v_2317888_25= co->res;
+Obj v_2317982_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317889_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2317889_25);
+Obj v_2317983_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2317983_25);
 return;
 }
 case 2:
 {
-Obj v_2317887_25= co->res;
+Obj v_2317981_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun82, 1, R);
+saveCont(co, clofun83, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v_2317886_25= co->res;
+Obj v_2317980_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun82, 2, R);
+saveCont(co, clofun83, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj v_2317885_25= co->res;
+Obj v_2317979_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun82, 3, R);
+saveCont(co, clofun83, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v_2317884_25= co->res;
+Obj v_2317978_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun82, 4, R);
+saveCont(co, clofun83, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
@@ -4496,7 +4499,7 @@ return;
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4506,13 +4509,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun80, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun81, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4520,64 +4523,64 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun80, 5, R);
+saveCont(co, clofun81, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v_2317881_25= co->res;
+Obj v_2317975_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317882_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2317882_25);
+Obj v_2317976_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2317976_25);
 return;
 }
 case 2:
 {
-Obj v_2317880_25= co->res;
+Obj v_2317974_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun80, 1, R);
+saveCont(co, clofun81, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2317879_25= co->res;
+Obj v_2317973_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun80, 2, R);
+saveCont(co, clofun81, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2317878_25= co->res;
+Obj v_2317972_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun80, 3, R);
+saveCont(co, clofun81, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v_2317877_25= co->res;
+Obj v_2317971_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun80, 4, R);
+saveCont(co, clofun81, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4590,7 +4593,7 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4600,30 +4603,30 @@ Obj v_globals = R[3];
 R[1] = v_idx;
 R[2] = v_globals;
 R[3] = v_sym;
-saveCont(co, clofun78, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_globals);
+saveCont(co, clofun79, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2317870_25= co->res;
+Obj v_2317964_25= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v_2317870_25) {
+if (True == v_2317964_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2317871_25 = PRIM_CAR(v_globals);
-Obj v_2317872_25 = PRIM_EQ(v_sym, v_2317871_25);
-if (True == v_2317872_25) {
+Obj v_2317965_25 = PRIM_CAR(v_globals);
+Obj v_2317966_25 = PRIM_EQ(v_sym, v_2317965_25);
+if (True == v_2317966_25) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v_2317873_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v_2317874_25 = PRIM_CDR(v_globals);
+Obj v_2317967_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2317968_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2317873_25, v_sym, v_2317874_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2317967_25, v_sym, v_2317968_25);
 return;
 }
 }
@@ -4631,7 +4634,7 @@ return;
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4639,72 +4642,72 @@ Obj v_sym = R[1];
 Obj v_globals = R[2];
 R[1] = v_sym;
 R[2] = v_globals;
-saveCont(co, clofun77, 2, R);
+saveCont(co, clofun78, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2317866_25= co->res;
+Obj v_2317960_25= co->res;
 Obj v_sym = R[1];
 Obj v_val = R[2];
 Obj v_globals = R[3];
-if (True == v_2317866_25) {
+if (True == v_2317960_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317867_25 = makeCons(co->gc, v_sym, v_val);
-Obj v_2317868_25 = primSet(co, v_globals, v_2317867_25);
-coraReturn(co, v_2317868_25);
+Obj v_2317961_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2317962_25 = primSet(co, v_globals, v_2317961_25);
+coraReturn(co, v_2317962_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2317865_25= co->res;
+Obj v_2317959_25= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v_val = v_2317865_25;
+Obj v_val = v_2317959_25;
 R[1] = v_sym;
 R[2] = v_val;
 R[3] = v_globals;
-saveCont(co, clofun77, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v_sym, v_val);
+saveCont(co, clofun78, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_sym, v_val);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v_2317858_25 = primGenSym(co);
-Obj v_tmp = v_2317858_25;
+Obj v_2317952_25 = primGenSym(co);
+Obj v_tmp = v_2317952_25;
 R[1] = v_x;
 R[2] = v_tmp;
-saveCont(co, clofun76, 1, R);
+saveCont(co, clofun77, 1, R);
 coraCall1(co, v_k, v_tmp);
 return;
 }
 case 1:
 {
-Obj v_2317859_25= co->res;
+Obj v_2317953_25= co->res;
 Obj v_x = R[1];
 Obj v_tmp = R[2];
-Obj v_2317860_25 = makeCons(co->gc, v_2317859_25, Nil);
-Obj v_2317861_25 = makeCons(co->gc, v_x, v_2317860_25);
-Obj v_2317862_25 = makeCons(co->gc, v_tmp, v_2317861_25);
-Obj v_2317863_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317862_25);
-coraReturn(co, v_2317863_25);
+Obj v_2317954_25 = makeCons(co->gc, v_2317953_25, Nil);
+Obj v_2317955_25 = makeCons(co->gc, v_x, v_2317954_25);
+Obj v_2317956_25 = makeCons(co->gc, v_tmp, v_2317955_25);
+Obj v_2317957_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317956_25);
+coraReturn(co, v_2317957_25);
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4712,13 +4715,13 @@ Obj v_v = R[1];
 Obj v_val = R[2];
 R[1] = v_val;
 R[2] = v_v;
-saveCont(co, clofun75, 3, R);
+saveCont(co, clofun76, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v_2317856_25= co->res;
+Obj v_2317950_25= co->res;
 Obj v_v = R[1];
 Obj v_cur1 = R[2];
 co->ctx.sp = R;
@@ -4727,157 +4730,157 @@ return;
 }
 case 2:
 {
-Obj v_2317851_25= co->res;
+Obj v_2317945_25= co->res;
 Obj v_val = R[1];
 Obj v_idx = R[2];
 Obj v_v = R[3];
-Obj v_cur = v_2317851_25;
-Obj v_2317852_25 = makeCons(co->gc, v_val, Nil);
-Obj v_2317853_25 = makeCons(co->gc, v_idx, v_2317852_25);
-Obj v_2317854_25 = makeCons(co->gc, v_2317853_25, v_cur);
-Obj v_cur1 = v_2317854_25;
-Obj v_2317855_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_cur = v_2317945_25;
+Obj v_2317946_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2317947_25 = makeCons(co->gc, v_idx, v_2317946_25);
+Obj v_2317948_25 = makeCons(co->gc, v_2317947_25, v_cur);
+Obj v_cur1 = v_2317948_25;
+Obj v_2317949_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
 R[1] = v_v;
 R[2] = v_cur1;
-saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), v_2317855_25);
+saveCont(co, clofun76, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), v_2317949_25);
 return;
 }
 case 3:
 {
-Obj v_2317850_25= co->res;
+Obj v_2317944_25= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v_idx = v_2317850_25;
+Obj v_idx = v_2317944_25;
 R[1] = v_val;
 R[2] = v_idx;
 R[3] = v_v;
-saveCont(co, clofun75, 2, R);
+saveCont(co, clofun76, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316788_25 = R[1];
-Obj v_2316789_25 = R[2];
-Obj v_2316790_25 = makeNative(co->gc, 1, clofun73, 0, 2, v_2316788_25, v_2316789_25);
-Obj v_2317801_25 = PRIM_ISCONS(v_2316789_25);
-if (True == v_2317801_25) {
-Obj v_2317802_25 = PRIM_CAR(v_2316789_25);
-Obj v_2317803_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317802_25);
-if (True == v_2317803_25) {
-Obj v_2317804_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317805_25 = PRIM_ISCONS(v_2317804_25);
-if (True == v_2317805_25) {
-Obj v_2317806_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317807_25 = PRIM_CAR(v_2317806_25);
-Obj v_2317808_25 = PRIM_ISCONS(v_2317807_25);
-if (True == v_2317808_25) {
-Obj v_2317809_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317810_25 = PRIM_CAR(v_2317809_25);
-Obj v_2317811_25 = PRIM_CAR(v_2317810_25);
-Obj v_2317812_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317811_25);
-if (True == v_2317812_25) {
-Obj v_2317813_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317814_25 = PRIM_CAR(v_2317813_25);
-Obj v_2317815_25 = PRIM_CDR(v_2317814_25);
-Obj v_2317816_25 = PRIM_ISCONS(v_2317815_25);
-if (True == v_2317816_25) {
-Obj v_2317817_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317818_25 = PRIM_CAR(v_2317817_25);
-Obj v_2317819_25 = PRIM_CDR(v_2317818_25);
-Obj v_2317820_25 = PRIM_CAR(v_2317819_25);
-Obj v_params = v_2317820_25;
-Obj v_2317821_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317822_25 = PRIM_CAR(v_2317821_25);
-Obj v_2317823_25 = PRIM_CDR(v_2317822_25);
-Obj v_2317824_25 = PRIM_CDR(v_2317823_25);
-Obj v_2317825_25 = PRIM_ISCONS(v_2317824_25);
-if (True == v_2317825_25) {
-Obj v_2317826_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317827_25 = PRIM_CAR(v_2317826_25);
-Obj v_2317828_25 = PRIM_CDR(v_2317827_25);
-Obj v_2317829_25 = PRIM_CDR(v_2317828_25);
-Obj v_2317830_25 = PRIM_CAR(v_2317829_25);
-Obj v_body = v_2317830_25;
-Obj v_2317831_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317832_25 = PRIM_CAR(v_2317831_25);
-Obj v_2317833_25 = PRIM_CDR(v_2317832_25);
-Obj v_2317834_25 = PRIM_CDR(v_2317833_25);
-Obj v_2317835_25 = PRIM_CDR(v_2317834_25);
-Obj v_2317836_25 = PRIM_EQ(Nil, v_2317835_25);
-if (True == v_2317836_25) {
-Obj v_2317837_25 = PRIM_CDR(v_2316789_25);
-Obj v_2317838_25 = PRIM_CDR(v_2317837_25);
-Obj v_fvs = v_2317838_25;
-R[1] = v_2316788_25;
+Obj v_2316868_25 = R[1];
+Obj v_2316869_25 = R[2];
+Obj v_2316870_25 = makeNative(co->gc, 1, clofun74, 0, 2, v_2316868_25, v_2316869_25);
+Obj v_2317895_25 = PRIM_ISCONS(v_2316869_25);
+if (True == v_2317895_25) {
+Obj v_2317896_25 = PRIM_CAR(v_2316869_25);
+Obj v_2317897_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317896_25);
+if (True == v_2317897_25) {
+Obj v_2317898_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317899_25 = PRIM_ISCONS(v_2317898_25);
+if (True == v_2317899_25) {
+Obj v_2317900_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317901_25 = PRIM_CAR(v_2317900_25);
+Obj v_2317902_25 = PRIM_ISCONS(v_2317901_25);
+if (True == v_2317902_25) {
+Obj v_2317903_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317904_25 = PRIM_CAR(v_2317903_25);
+Obj v_2317905_25 = PRIM_CAR(v_2317904_25);
+Obj v_2317906_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317905_25);
+if (True == v_2317906_25) {
+Obj v_2317907_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317908_25 = PRIM_CAR(v_2317907_25);
+Obj v_2317909_25 = PRIM_CDR(v_2317908_25);
+Obj v_2317910_25 = PRIM_ISCONS(v_2317909_25);
+if (True == v_2317910_25) {
+Obj v_2317911_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317912_25 = PRIM_CAR(v_2317911_25);
+Obj v_2317913_25 = PRIM_CDR(v_2317912_25);
+Obj v_2317914_25 = PRIM_CAR(v_2317913_25);
+Obj v_params = v_2317914_25;
+Obj v_2317915_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317916_25 = PRIM_CAR(v_2317915_25);
+Obj v_2317917_25 = PRIM_CDR(v_2317916_25);
+Obj v_2317918_25 = PRIM_CDR(v_2317917_25);
+Obj v_2317919_25 = PRIM_ISCONS(v_2317918_25);
+if (True == v_2317919_25) {
+Obj v_2317920_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317921_25 = PRIM_CAR(v_2317920_25);
+Obj v_2317922_25 = PRIM_CDR(v_2317921_25);
+Obj v_2317923_25 = PRIM_CDR(v_2317922_25);
+Obj v_2317924_25 = PRIM_CAR(v_2317923_25);
+Obj v_body = v_2317924_25;
+Obj v_2317925_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317926_25 = PRIM_CAR(v_2317925_25);
+Obj v_2317927_25 = PRIM_CDR(v_2317926_25);
+Obj v_2317928_25 = PRIM_CDR(v_2317927_25);
+Obj v_2317929_25 = PRIM_CDR(v_2317928_25);
+Obj v_2317930_25 = PRIM_EQ(Nil, v_2317929_25);
+if (True == v_2317930_25) {
+Obj v_2317931_25 = PRIM_CDR(v_2316869_25);
+Obj v_2317932_25 = PRIM_CDR(v_2317931_25);
+Obj v_fvs = v_2317932_25;
+R[1] = v_2316868_25;
 R[2] = v_params;
 R[3] = v_fvs;
-saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_2316788_25, v_body);
+saveCont(co, clofun75, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_2316868_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2316870_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317844_25= co->res;
+Obj v_2317938_25= co->res;
 Obj v_nframe = R[1];
 Obj v_fvs = R[2];
 Obj v_cur = R[3];
-Obj v_2317845_25 = makeCons(co->gc, v_nframe, v_fvs);
-Obj v_2317846_25 = makeCons(co->gc, v_2317844_25, v_2317845_25);
-Obj v_2317847_25 = makeCons(co->gc, v_cur, v_2317846_25);
-Obj v_2317848_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317847_25);
-coraReturn(co, v_2317848_25);
+Obj v_2317939_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2317940_25 = makeCons(co->gc, v_2317938_25, v_2317939_25);
+Obj v_2317941_25 = makeCons(co->gc, v_cur, v_2317940_25);
+Obj v_2317942_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317941_25);
+coraReturn(co, v_2317942_25);
 return;
 }
 case 2:
 {
-Obj v_2317843_25= co->res;
+Obj v_2317937_25= co->res;
 Obj v_params = R[1];
 Obj v_nframe = R[2];
 Obj v_fvs = R[3];
@@ -4885,85 +4888,85 @@ Obj v_cur = R[4];
 R[1] = v_nframe;
 R[2] = v_fvs;
 R[3] = v_cur;
-saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_params);
+saveCont(co, clofun75, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_params);
 return;
 }
 case 3:
 {
-Obj v_2317842_25= co->res;
-Obj v_2316788_25 = R[1];
+Obj v_2317936_25= co->res;
+Obj v_2316868_25 = R[1];
 Obj v_body2 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
 Obj v_cur = R[5];
-Obj v_nframe = v_2317842_25;
+Obj v_nframe = v_2317936_25;
 R[1] = v_params;
 R[2] = v_nframe;
 R[3] = v_fvs;
 R[4] = v_cur;
-saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2316788_25, v_body2);
+saveCont(co, clofun75, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2316868_25, v_body2);
 return;
 }
 case 4:
 {
-Obj v_2317841_25= co->res;
-Obj v_2316788_25 = R[1];
+Obj v_2317935_25= co->res;
+Obj v_2316868_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
 Obj v_cur = R[4];
-Obj v_body2 = v_2317841_25;
-R[1] = v_2316788_25;
+Obj v_body2 = v_2317935_25;
+R[1] = v_2316868_25;
 R[2] = v_body2;
 R[3] = v_params;
 R[4] = v_fvs;
 R[5] = v_cur;
-saveCont(co, clofun74, 3, R);
+saveCont(co, clofun75, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_body2);
 return;
 }
 case 5:
 {
-Obj v_2317840_25= co->res;
+Obj v_2317934_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2316788_25 = R[2];
+Obj v_2316868_25 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
-Obj v_cur = v_2317840_25;
-R[1] = v_2316788_25;
+Obj v_cur = v_2317934_25;
+R[1] = v_2316868_25;
 R[2] = v_params;
 R[3] = v_fvs;
 R[4] = v_cur;
-saveCont(co, clofun74, 4, R);
+saveCont(co, clofun75, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), v_params, v_body1);
 return;
 }
 case 6:
 {
-Obj v_2317839_25= co->res;
-Obj v_2316788_25 = R[1];
+Obj v_2317933_25= co->res;
+Obj v_2316868_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
-Obj v_body1 = v_2317839_25;
+Obj v_body1 = v_2317933_25;
 R[1] = v_body1;
-R[2] = v_2316788_25;
+R[2] = v_2316868_25;
 R[3] = v_params;
 R[4] = v_fvs;
-saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2316788_25, MAKE_NUMBER(0));
+saveCont(co, clofun75, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2316868_25, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317799_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317799_25) {
-saveCont(co, clofun73, 1, R);
+Obj v_2317893_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317893_25) {
+saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), closureRef(R[0], 0));
 return;
 } else {
@@ -4973,74 +4976,74 @@ return;
 }
 case 1:
 {
-Obj v_2317800_25= co->res;
+Obj v_2317894_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317800_25, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317894_25, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun72, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_lam);
+saveCont(co, clofun73, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
 return;
 }
 case 1:
 {
-Obj v_2317797_25= co->res;
-Obj v_2317796_25 = R[1];
+Obj v_2317891_25= co->res;
+Obj v_2317890_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun71, 2, 0), v_2317796_25, v_2317797_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun72, 2, 0), v_2317890_25, v_2317891_25);
 return;
 }
 case 2:
 {
-Obj v_2317791_25= co->res;
+Obj v_2317885_25= co->res;
 Obj v_lam = R[1];
-Obj v_nargs = v_2317791_25;
-Obj v_2317796_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
-R[1] = v_2317796_25;
-saveCont(co, clofun72, 1, R);
+Obj v_nargs = v_2317885_25;
+Obj v_2317890_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2317890_25;
+saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
 return;
 }
 case 3:
 {
-Obj v_2317790_25= co->res;
+Obj v_2317884_25= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2317790_25);
+saveCont(co, clofun73, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317884_25);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_acc = R[1];
 Obj v_x = R[2];
 R[1] = v_acc;
-saveCont(co, clofun71, 2, R);
+saveCont(co, clofun72, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_x);
 return;
 }
 case 1:
 {
-Obj v_2317793_25= co->res;
+Obj v_2317887_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317794_25 = PRIM_ADD(v_2317793_25, MAKE_NUMBER(1));
-Obj v_len = v_2317794_25;
-Obj v_2317795_25 = PRIM_GT(v_len, v_acc);
-if (True == v_2317795_25) {
+Obj v_2317888_25 = PRIM_ADD(v_2317887_25, MAKE_NUMBER(1));
+Obj v_len = v_2317888_25;
+Obj v_2317889_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2317889_25) {
 coraReturn(co, v_len);
 return;
 } else {
@@ -5050,79 +5053,79 @@ return;
 }
 case 2:
 {
-Obj v_2317792_25= co->res;
+Obj v_2317886_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2317792_25);
+saveCont(co, clofun72, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317886_25);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_params = R[1];
 Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, v_params));
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body1 = R[1];
 Obj v_conts = R[2];
 R[1] = v_body1;
-saveCont(co, clofun69, 1, R);
+saveCont(co, clofun70, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_conts);
 return;
 }
 case 1:
 {
-Obj v_2317785_25= co->res;
+Obj v_2317879_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2317786_25 = makeCons(co->gc, v_body1, v_2317785_25);
-Obj v_2317787_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317786_25);
-Obj v_2317788_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317787_25);
-coraReturn(co, v_2317788_25);
+Obj v_2317880_25 = makeCons(co->gc, v_body1, v_2317879_25);
+Obj v_2317881_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317880_25);
+Obj v_2317882_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317881_25);
+coraReturn(co, v_2317882_25);
 return;
 }
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316782_25 = R[1];
-Obj v_2316783_25 = R[2];
-Obj v_2316784_25 = R[3];
-Obj v_2316785_25 = R[4];
-Obj v_2317779_25 = PRIM_EQ(Nil, v_2316782_25);
-if (True == v_2317779_25) {
+Obj v_2316862_25 = R[1];
+Obj v_2316863_25 = R[2];
+Obj v_2316864_25 = R[3];
+Obj v_2316865_25 = R[4];
+Obj v_2317873_25 = PRIM_EQ(Nil, v_2316862_25);
+if (True == v_2317873_25) {
 co->ctx.sp = R;
-coraCall2(co, v_2316785_25, v_2316784_25, v_2316783_25);
+coraCall2(co, v_2316865_25, v_2316864_25, v_2316863_25);
 return;
 } else {
-Obj v_2317780_25 = PRIM_ISCONS(v_2316782_25);
-if (True == v_2317780_25) {
-Obj v_2317781_25 = PRIM_CAR(v_2316782_25);
-Obj v_f = v_2317781_25;
-Obj v_2317782_25 = PRIM_CDR(v_2316782_25);
-Obj v_args = v_2317782_25;
+Obj v_2317874_25 = PRIM_ISCONS(v_2316862_25);
+if (True == v_2317874_25) {
+Obj v_2317875_25 = PRIM_CAR(v_2316862_25);
+Obj v_f = v_2317875_25;
+Obj v_2317876_25 = PRIM_CDR(v_2316862_25);
+Obj v_args = v_2317876_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_f, v_2316783_25, makeNative(co->gc, 3, clofun67, 2, 3, v_args, v_2316784_25, v_2316785_25));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_f, v_2316863_25, makeNative(co->gc, 3, clofun68, 2, 3, v_args, v_2316864_25, v_2316865_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5130,131 +5133,131 @@ return;
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_f1 = R[1];
 Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v_2317783_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v_2317877_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2317783_25, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v_2317877_25, v_conts2);
 return;
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316776_25 = R[1];
-Obj v_2316777_25 = R[2];
-Obj v_2316778_25 = R[3];
-Obj v_2316852_25 = makeNative(co->gc, 2, clofun64, 1, 3, v_2316776_25, v_2316777_25, v_2316778_25);
-Obj v_2317776_25 = primIsSymbol(v_2316776_25);
-if (True == v_2317776_25) {
+Obj v_2316856_25 = R[1];
+Obj v_2316857_25 = R[2];
+Obj v_2316858_25 = R[3];
+Obj v_2316932_25 = makeNative(co->gc, 2, clofun65, 1, 3, v_2316856_25, v_2316857_25, v_2316858_25);
+Obj v_2317870_25 = primIsSymbol(v_2316856_25);
+if (True == v_2317870_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316852_25, True);
+coraCall1(co, v_2316932_25, True);
 return;
 } else {
-R[1] = v_2316852_25;
-saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316776_25);
+R[1] = v_2316932_25;
+saveCont(co, clofun66, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316856_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317777_25= co->res;
-Obj v_2316852_25 = R[1];
-if (True == v_2317777_25) {
+Obj v_2317871_25= co->res;
+Obj v_2316932_25 = R[1];
+if (True == v_2317871_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316852_25, True);
+coraCall1(co, v_2316932_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316852_25, False);
+coraCall1(co, v_2316932_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316853_25 = R[1];
-if (True == v_2316853_25) {
+Obj v_2316933_25 = R[1];
+if (True == v_2316933_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2316780_25 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317752_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317752_25) {
-Obj v_2317753_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317754_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317753_25);
-if (True == v_2317754_25) {
-Obj v_2317755_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317756_25 = PRIM_ISCONS(v_2317755_25);
-if (True == v_2317756_25) {
-Obj v_2317757_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317758_25 = PRIM_CAR(v_2317757_25);
-Obj v_exp = v_2317758_25;
-Obj v_2317759_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317760_25 = PRIM_CDR(v_2317759_25);
-Obj v_2317761_25 = PRIM_ISCONS(v_2317760_25);
-if (True == v_2317761_25) {
-Obj v_2317762_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317763_25 = PRIM_CDR(v_2317762_25);
-Obj v_2317764_25 = PRIM_CAR(v_2317763_25);
-Obj v_cont = v_2317764_25;
-Obj v_2317765_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317766_25 = PRIM_CDR(v_2317765_25);
-Obj v_2317767_25 = PRIM_CDR(v_2317766_25);
-Obj v_2317768_25 = PRIM_EQ(Nil, v_2317767_25);
-if (True == v_2317768_25) {
+Obj v_2316860_25 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317846_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317846_25) {
+Obj v_2317847_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317848_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317847_25);
+if (True == v_2317848_25) {
+Obj v_2317849_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317850_25 = PRIM_ISCONS(v_2317849_25);
+if (True == v_2317850_25) {
+Obj v_2317851_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317852_25 = PRIM_CAR(v_2317851_25);
+Obj v_exp = v_2317852_25;
+Obj v_2317853_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317854_25 = PRIM_CDR(v_2317853_25);
+Obj v_2317855_25 = PRIM_ISCONS(v_2317854_25);
+if (True == v_2317855_25) {
+Obj v_2317856_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317857_25 = PRIM_CDR(v_2317856_25);
+Obj v_2317858_25 = PRIM_CAR(v_2317857_25);
+Obj v_cont = v_2317858_25;
+Obj v_2317859_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317860_25 = PRIM_CDR(v_2317859_25);
+Obj v_2317861_25 = PRIM_CDR(v_2317860_25);
+Obj v_2317862_25 = PRIM_EQ(Nil, v_2317861_25);
+if (True == v_2317862_25) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), v_exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316780_25);
+coraCall0(co, v_2316860_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316780_25);
+coraCall0(co, v_2316860_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316780_25);
+coraCall0(co, v_2316860_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316780_25);
+coraCall0(co, v_2316860_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316780_25);
+coraCall0(co, v_2316860_25);
 return;
 }
 }
@@ -5262,7 +5265,7 @@ return;
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5270,152 +5273,152 @@ Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
 R[1] = v_cont1;
 R[2] = v_conts1;
-saveCont(co, clofun63, 2, R);
+saveCont(co, clofun64, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_cont1);
 return;
 }
 case 1:
 {
-Obj v_2317770_25= co->res;
+Obj v_2317864_25= co->res;
 Obj v_fvs = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v_2317771_25 = PRIM_ADD(v_2317770_25, MAKE_NUMBER(1));
-Obj v_2317772_25 = makeCons(co->gc, v_2317771_25, v_fvs);
-Obj v_2317773_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317772_25);
-Obj v_2317774_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317773_25);
-Obj v_2317775_25 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v_2317865_25 = PRIM_ADD(v_2317864_25, MAKE_NUMBER(1));
+Obj v_2317866_25 = makeCons(co->gc, v_2317865_25, v_fvs);
+Obj v_2317867_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317866_25);
+Obj v_2317868_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317867_25);
+Obj v_2317869_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2317774_25, v_2317775_25);
+coraCall2(co, closureRef(R[0], 0), v_2317868_25, v_2317869_25);
 return;
 }
 case 2:
 {
-Obj v_2317769_25= co->res;
+Obj v_2317863_25= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v_fvs = v_2317769_25;
+Obj v_fvs = v_2317863_25;
 R[1] = v_fvs;
 R[2] = v_cont1;
 R[3] = v_conts1;
-saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_conts1);
+saveCont(co, clofun64, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_conts1);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317748_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317748_25) {
-Obj v_2317749_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317749_25;
-Obj v_2317750_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317750_25;
-Obj v_2317751_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317842_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317842_25) {
+Obj v_2317843_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317843_25;
+Obj v_2317844_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317844_25;
+Obj v_2317845_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), v_2317751_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), v_2317845_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316768_25 = R[1];
-Obj v_2316769_25 = R[2];
-R[1] = v_2316769_25;
-R[2] = v_2316768_25;
-saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316769_25);
+Obj v_2316848_25 = R[1];
+Obj v_2316849_25 = R[2];
+R[1] = v_2316849_25;
+R[2] = v_2316848_25;
+saveCont(co, clofun62, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316849_25);
 return;
 }
 case 1:
 {
-Obj v_2317743_25= co->res;
+Obj v_2317837_25= co->res;
 Obj v_args = R[1];
-Obj v_2317744_25 = makeCons(co->gc, v_2317743_25, Nil);
-Obj v_2317745_25 = makeCons(co->gc, v_args, v_2317744_25);
-Obj v_2317746_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317745_25);
-coraReturn(co, v_2317746_25);
+Obj v_2317838_25 = makeCons(co->gc, v_2317837_25, Nil);
+Obj v_2317839_25 = makeCons(co->gc, v_args, v_2317838_25);
+Obj v_2317840_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317839_25);
+coraReturn(co, v_2317840_25);
 return;
 }
 case 2:
 {
-Obj v_2317671_25= co->res;
-Obj v_2316769_25 = R[1];
-Obj v_2316768_25 = R[2];
-if (True == v_2317671_25) {
-coraReturn(co, v_2316769_25);
-return;
-} else {
-Obj v_2317672_25 = primIsSymbol(v_2316769_25);
-if (True == v_2317672_25) {
-coraReturn(co, v_2316769_25);
-return;
-} else {
-Obj v_2316772_25 = makeNative(co->gc, 4, clofun60, 0, 2, v_2316769_25, v_2316768_25);
-Obj v_2317726_25 = PRIM_ISCONS(v_2316769_25);
-if (True == v_2317726_25) {
-Obj v_2317727_25 = PRIM_CAR(v_2316769_25);
-Obj v_2317728_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317727_25);
-if (True == v_2317728_25) {
-Obj v_2317729_25 = PRIM_CDR(v_2316769_25);
-Obj v_2317730_25 = PRIM_ISCONS(v_2317729_25);
-if (True == v_2317730_25) {
-Obj v_2317731_25 = PRIM_CDR(v_2316769_25);
-Obj v_2317732_25 = PRIM_CAR(v_2317731_25);
-Obj v_args = v_2317732_25;
-Obj v_2317733_25 = PRIM_CDR(v_2316769_25);
-Obj v_2317734_25 = PRIM_CDR(v_2317733_25);
-Obj v_2317735_25 = PRIM_ISCONS(v_2317734_25);
-if (True == v_2317735_25) {
-Obj v_2317736_25 = PRIM_CDR(v_2316769_25);
-Obj v_2317737_25 = PRIM_CDR(v_2317736_25);
-Obj v_2317738_25 = PRIM_CAR(v_2317737_25);
-Obj v_body = v_2317738_25;
-Obj v_2317739_25 = PRIM_CDR(v_2316769_25);
-Obj v_2317740_25 = PRIM_CDR(v_2317739_25);
-Obj v_2317741_25 = PRIM_CDR(v_2317740_25);
-Obj v_2317742_25 = PRIM_EQ(Nil, v_2317741_25);
-if (True == v_2317742_25) {
+Obj v_2317765_25= co->res;
+Obj v_2316849_25 = R[1];
+Obj v_2316848_25 = R[2];
+if (True == v_2317765_25) {
+coraReturn(co, v_2316849_25);
+return;
+} else {
+Obj v_2317766_25 = primIsSymbol(v_2316849_25);
+if (True == v_2317766_25) {
+coraReturn(co, v_2316849_25);
+return;
+} else {
+Obj v_2316852_25 = makeNative(co->gc, 4, clofun61, 0, 2, v_2316849_25, v_2316848_25);
+Obj v_2317820_25 = PRIM_ISCONS(v_2316849_25);
+if (True == v_2317820_25) {
+Obj v_2317821_25 = PRIM_CAR(v_2316849_25);
+Obj v_2317822_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317821_25);
+if (True == v_2317822_25) {
+Obj v_2317823_25 = PRIM_CDR(v_2316849_25);
+Obj v_2317824_25 = PRIM_ISCONS(v_2317823_25);
+if (True == v_2317824_25) {
+Obj v_2317825_25 = PRIM_CDR(v_2316849_25);
+Obj v_2317826_25 = PRIM_CAR(v_2317825_25);
+Obj v_args = v_2317826_25;
+Obj v_2317827_25 = PRIM_CDR(v_2316849_25);
+Obj v_2317828_25 = PRIM_CDR(v_2317827_25);
+Obj v_2317829_25 = PRIM_ISCONS(v_2317828_25);
+if (True == v_2317829_25) {
+Obj v_2317830_25 = PRIM_CDR(v_2316849_25);
+Obj v_2317831_25 = PRIM_CDR(v_2317830_25);
+Obj v_2317832_25 = PRIM_CAR(v_2317831_25);
+Obj v_body = v_2317832_25;
+Obj v_2317833_25 = PRIM_CDR(v_2316849_25);
+Obj v_2317834_25 = PRIM_CDR(v_2317833_25);
+Obj v_2317835_25 = PRIM_CDR(v_2317834_25);
+Obj v_2317836_25 = PRIM_EQ(Nil, v_2317835_25);
+if (True == v_2317836_25) {
 R[1] = v_args;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_2316768_25, v_body);
+saveCont(co, clofun62, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_2316848_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316772_25);
+coraCall0(co, v_2316852_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316772_25);
+coraCall0(co, v_2316852_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316772_25);
+coraCall0(co, v_2316852_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316772_25);
+coraCall0(co, v_2316852_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316772_25);
+coraCall0(co, v_2316852_25);
 return;
 }
 }
@@ -5424,368 +5427,368 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316773_25 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317701_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317701_25) {
-Obj v_2317702_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317703_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317702_25);
-if (True == v_2317703_25) {
-Obj v_2317704_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317705_25 = PRIM_ISCONS(v_2317704_25);
-if (True == v_2317705_25) {
-Obj v_2317706_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317707_25 = PRIM_CAR(v_2317706_25);
-Obj v_val = v_2317707_25;
-Obj v_2317708_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317709_25 = PRIM_CDR(v_2317708_25);
-Obj v_2317710_25 = PRIM_ISCONS(v_2317709_25);
-if (True == v_2317710_25) {
-Obj v_2317711_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317712_25 = PRIM_CDR(v_2317711_25);
-Obj v_2317713_25 = PRIM_CAR(v_2317712_25);
-Obj v_body = v_2317713_25;
-Obj v_2317714_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317715_25 = PRIM_CDR(v_2317714_25);
-Obj v_2317716_25 = PRIM_CDR(v_2317715_25);
-Obj v_2317717_25 = PRIM_EQ(Nil, v_2317716_25);
-if (True == v_2317717_25) {
+Obj v_2316853_25 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317795_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317795_25) {
+Obj v_2317796_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317797_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317796_25);
+if (True == v_2317797_25) {
+Obj v_2317798_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317799_25 = PRIM_ISCONS(v_2317798_25);
+if (True == v_2317799_25) {
+Obj v_2317800_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317801_25 = PRIM_CAR(v_2317800_25);
+Obj v_val = v_2317801_25;
+Obj v_2317802_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317803_25 = PRIM_CDR(v_2317802_25);
+Obj v_2317804_25 = PRIM_ISCONS(v_2317803_25);
+if (True == v_2317804_25) {
+Obj v_2317805_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317806_25 = PRIM_CDR(v_2317805_25);
+Obj v_2317807_25 = PRIM_CAR(v_2317806_25);
+Obj v_body = v_2317807_25;
+Obj v_2317808_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317809_25 = PRIM_CDR(v_2317808_25);
+Obj v_2317810_25 = PRIM_CDR(v_2317809_25);
+Obj v_2317811_25 = PRIM_EQ(Nil, v_2317810_25);
+if (True == v_2317811_25) {
 R[1] = v_body;
 R[2] = v_val;
-saveCont(co, clofun60, 5, R);
+saveCont(co, clofun61, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316773_25);
+coraCall0(co, v_2316853_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316773_25);
+coraCall0(co, v_2316853_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316773_25);
+coraCall0(co, v_2316853_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316773_25);
+coraCall0(co, v_2316853_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316773_25);
+coraCall0(co, v_2316853_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317722_25= co->res;
+Obj v_2317816_25= co->res;
 Obj v_fvs2 = R[1];
 Obj v_val = R[2];
-Obj v_2317723_25 = makeCons(co->gc, v_2317722_25, v_fvs2);
-Obj v_2317724_25 = makeCons(co->gc, v_val, v_2317723_25);
-Obj v_2317725_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2317724_25);
-coraReturn(co, v_2317725_25);
+Obj v_2317817_25 = makeCons(co->gc, v_2317816_25, v_fvs2);
+Obj v_2317818_25 = makeCons(co->gc, v_val, v_2317817_25);
+Obj v_2317819_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2317818_25);
+coraReturn(co, v_2317819_25);
 return;
 }
 case 2:
 {
-Obj v_2317721_25= co->res;
+Obj v_2317815_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
-Obj v_fvs2 = v_2317721_25;
+Obj v_fvs2 = v_2317815_25;
 R[1] = v_fvs2;
 R[2] = v_val;
-saveCont(co, clofun60, 1, R);
+saveCont(co, clofun61, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_fvs1, v_body);
 return;
 }
 case 3:
 {
-Obj v_2317720_25= co->res;
+Obj v_2317814_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317720_25, v_fvs1);
+saveCont(co, clofun61, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317814_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2317719_25= co->res;
+Obj v_2317813_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
-Obj v_fvs1 = v_2317719_25;
+Obj v_fvs1 = v_2317813_25;
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
-saveCont(co, clofun60, 3, R);
+saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v_2317718_25= co->res;
+Obj v_2317812_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
 R[1] = v_body;
 R[2] = v_val;
-saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317718_25, v_val);
+saveCont(co, clofun61, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317812_25, v_val);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316774_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317678_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317678_25) {
-Obj v_2317679_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317680_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317679_25);
-if (True == v_2317680_25) {
-Obj v_2317681_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317682_25 = PRIM_ISCONS(v_2317681_25);
-if (True == v_2317682_25) {
-Obj v_2317683_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317684_25 = PRIM_CAR(v_2317683_25);
-Obj v_exp = v_2317684_25;
-Obj v_2317685_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317686_25 = PRIM_CDR(v_2317685_25);
-Obj v_2317687_25 = PRIM_ISCONS(v_2317686_25);
-if (True == v_2317687_25) {
-Obj v_2317688_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317689_25 = PRIM_CDR(v_2317688_25);
-Obj v_2317690_25 = PRIM_CAR(v_2317689_25);
-Obj v_cont = v_2317690_25;
-Obj v_2317691_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317692_25 = PRIM_CDR(v_2317691_25);
-Obj v_2317693_25 = PRIM_CDR(v_2317692_25);
-Obj v_2317694_25 = PRIM_EQ(Nil, v_2317693_25);
-if (True == v_2317694_25) {
+Obj v_2316854_25 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317772_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317772_25) {
+Obj v_2317773_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317774_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317773_25);
+if (True == v_2317774_25) {
+Obj v_2317775_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317776_25 = PRIM_ISCONS(v_2317775_25);
+if (True == v_2317776_25) {
+Obj v_2317777_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317778_25 = PRIM_CAR(v_2317777_25);
+Obj v_exp = v_2317778_25;
+Obj v_2317779_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317780_25 = PRIM_CDR(v_2317779_25);
+Obj v_2317781_25 = PRIM_ISCONS(v_2317780_25);
+if (True == v_2317781_25) {
+Obj v_2317782_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317783_25 = PRIM_CDR(v_2317782_25);
+Obj v_2317784_25 = PRIM_CAR(v_2317783_25);
+Obj v_cont = v_2317784_25;
+Obj v_2317785_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317786_25 = PRIM_CDR(v_2317785_25);
+Obj v_2317787_25 = PRIM_CDR(v_2317786_25);
+Obj v_2317788_25 = PRIM_EQ(Nil, v_2317787_25);
+if (True == v_2317788_25) {
 R[1] = v_exp;
 R[2] = v_cont;
-saveCont(co, clofun59, 3, R);
+saveCont(co, clofun60, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316774_25);
+coraCall0(co, v_2316854_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316774_25);
+coraCall0(co, v_2316854_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316774_25);
+coraCall0(co, v_2316854_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316774_25);
+coraCall0(co, v_2316854_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316774_25);
+coraCall0(co, v_2316854_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317697_25= co->res;
-Obj v_2317696_25 = R[1];
-Obj v_2317698_25 = makeCons(co->gc, v_2317697_25, Nil);
-Obj v_2317699_25 = makeCons(co->gc, v_2317696_25, v_2317698_25);
-Obj v_2317700_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317699_25);
-coraReturn(co, v_2317700_25);
+Obj v_2317791_25= co->res;
+Obj v_2317790_25 = R[1];
+Obj v_2317792_25 = makeCons(co->gc, v_2317791_25, Nil);
+Obj v_2317793_25 = makeCons(co->gc, v_2317790_25, v_2317792_25);
+Obj v_2317794_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317793_25);
+coraReturn(co, v_2317794_25);
 return;
 }
 case 2:
 {
-Obj v_2317696_25= co->res;
+Obj v_2317790_25= co->res;
 Obj v_cont = R[1];
-R[1] = v_2317696_25;
-saveCont(co, clofun59, 1, R);
+R[1] = v_2317790_25;
+saveCont(co, clofun60, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj v_2317695_25= co->res;
+Obj v_2317789_25= co->res;
 Obj v_exp = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
-saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317695_25, v_exp);
+saveCont(co, clofun60, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317789_25, v_exp);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317673_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317673_25) {
-Obj v_2317674_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317674_25;
-Obj v_2317675_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317675_25;
+Obj v_2317767_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317767_25) {
+Obj v_2317768_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317768_25;
+Obj v_2317769_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317769_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun58, 1, R);
+saveCont(co, clofun59, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317676_25= co->res;
+Obj v_2317770_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2317677_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317771_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317676_25, v_2317677_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317770_25, v_2317771_25);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316763_25 = R[1];
-Obj v_2316764_25 = R[2];
-Obj v_2316765_25 = R[3];
-Obj v_2317648_25 = PRIM_EQ(Nil, v_2316763_25);
-if (True == v_2317648_25) {
-R[1] = v_2316765_25;
-saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316764_25);
+Obj v_2316843_25 = R[1];
+Obj v_2316844_25 = R[2];
+Obj v_2316845_25 = R[3];
+Obj v_2317742_25 = PRIM_EQ(Nil, v_2316843_25);
+if (True == v_2317742_25) {
+R[1] = v_2316845_25;
+saveCont(co, clofun58, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316844_25);
 return;
 } else {
-Obj v_2317666_25 = PRIM_ISCONS(v_2316763_25);
-if (True == v_2317666_25) {
-Obj v_2317667_25 = PRIM_CAR(v_2316763_25);
-Obj v_hd = v_2317667_25;
-Obj v_2317668_25 = PRIM_CDR(v_2316763_25);
-Obj v_tl = v_2317668_25;
+Obj v_2317760_25 = PRIM_ISCONS(v_2316843_25);
+if (True == v_2317760_25) {
+Obj v_2317761_25 = PRIM_CAR(v_2316843_25);
+Obj v_hd = v_2317761_25;
+Obj v_2317762_25 = PRIM_CDR(v_2316843_25);
+Obj v_tl = v_2317762_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_hd, makeNative(co->gc, 2, clofun56, 1, 3, v_tl, v_2316764_25, v_2316765_25));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_hd, makeNative(co->gc, 2, clofun57, 1, 3, v_tl, v_2316844_25, v_2316845_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317664_25= co->res;
-Obj v_2316850_25 = R[1];
-Obj v_2317665_25 = PRIM_EQ(v_2317664_25, getBinding(co, packageID, 91).name);
-if (True == v_2317665_25) {
+Obj v_2317758_25= co->res;
+Obj v_2316930_25 = R[1];
+Obj v_2317759_25 = PRIM_EQ(v_2317758_25, getBinding(co, packageID, 96).name);
+if (True == v_2317759_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316850_25, True);
+coraCall1(co, v_2316930_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316850_25, False);
+coraCall1(co, v_2316930_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317663_25= co->res;
+Obj v_2317757_25= co->res;
 Obj v_exp = R[1];
-Obj v_2316850_25 = R[2];
-if (True == v_2317663_25) {
-R[1] = v_2316850_25;
-saveCont(co, clofun57, 1, R);
+Obj v_2316930_25 = R[2];
+if (True == v_2317757_25) {
+R[1] = v_2316930_25;
+saveCont(co, clofun58, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316850_25, False);
+coraCall1(co, v_2316930_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2317649_25= co->res;
-Obj v_2316765_25 = R[1];
-Obj v_exp = v_2317649_25;
-Obj v_2316850_25 = makeNative(co->gc, 2, clofun55, 1, 2, v_exp, v_2316765_25);
-Obj v_2317662_25 = PRIM_CAR(v_exp);
+Obj v_2317743_25= co->res;
+Obj v_2316845_25 = R[1];
+Obj v_exp = v_2317743_25;
+Obj v_2316930_25 = makeNative(co->gc, 2, clofun56, 1, 2, v_exp, v_2316845_25);
+Obj v_2317756_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2316850_25;
-saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317662_25);
+R[2] = v_2316930_25;
+saveCont(co, clofun58, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317756_25);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v_2317669_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v_2317763_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), v_2317669_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), v_2317763_25, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316851_25 = R[1];
-if (True == v_2316851_25) {
+Obj v_2316931_25 = R[1];
+if (True == v_2316931_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2317650_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
-if (True == v_2317650_25) {
-Obj v_2317651_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2317652_25 = makeCons(co->gc, getBinding(co, packageID, 75).name, v_2317651_25);
-coraReturn(co, v_2317652_25);
+Obj v_2317744_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
+if (True == v_2317744_25) {
+Obj v_2317745_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2317746_25 = makeCons(co->gc, getBinding(co, packageID, 75).name, v_2317745_25);
+coraReturn(co, v_2317746_25);
 return;
 } else {
-Obj v_2317653_25 = primGenSym(co);
-Obj v_val = v_2317653_25;
-Obj v_2317654_25 = makeCons(co->gc, v_val, Nil);
-R[1] = v_2317654_25;
-saveCont(co, clofun55, 1, R);
+Obj v_2317747_25 = primGenSym(co);
+Obj v_val = v_2317747_25;
+Obj v_2317748_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2317748_25;
+saveCont(co, clofun56, 1, R);
 coraCall1(co, closureRef(R[0], 1), v_val);
 return;
 }
@@ -5793,145 +5796,145 @@ return;
 }
 case 1:
 {
-Obj v_2317655_25= co->res;
-Obj v_2317654_25 = R[1];
-Obj v_2317656_25 = makeCons(co->gc, v_2317655_25, Nil);
-Obj v_2317657_25 = makeCons(co->gc, v_2317654_25, v_2317656_25);
-Obj v_2317658_25 = makeCons(co->gc, getBinding(co, packageID, 76).name, v_2317657_25);
-Obj v_2317659_25 = makeCons(co->gc, v_2317658_25, Nil);
-Obj v_2317660_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317659_25);
-Obj v_2317661_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317660_25);
-coraReturn(co, v_2317661_25);
+Obj v_2317749_25= co->res;
+Obj v_2317748_25 = R[1];
+Obj v_2317750_25 = makeCons(co->gc, v_2317749_25, Nil);
+Obj v_2317751_25 = makeCons(co->gc, v_2317748_25, v_2317750_25);
+Obj v_2317752_25 = makeCons(co->gc, getBinding(co, packageID, 76).name, v_2317751_25);
+Obj v_2317753_25 = makeCons(co->gc, v_2317752_25, Nil);
+Obj v_2317754_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317753_25);
+Obj v_2317755_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317754_25);
+coraReturn(co, v_2317755_25);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316754_25 = R[1];
-Obj v_2316755_25 = R[2];
-Obj v_2316848_25 = makeNative(co->gc, 2, clofun53, 1, 2, v_2316754_25, v_2316755_25);
-Obj v_2317645_25 = primIsSymbol(v_2316754_25);
-if (True == v_2317645_25) {
+Obj v_2316834_25 = R[1];
+Obj v_2316835_25 = R[2];
+Obj v_2316928_25 = makeNative(co->gc, 2, clofun54, 1, 2, v_2316834_25, v_2316835_25);
+Obj v_2317739_25 = primIsSymbol(v_2316834_25);
+if (True == v_2317739_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316848_25, True);
+coraCall1(co, v_2316928_25, True);
 return;
 } else {
-R[1] = v_2316848_25;
-saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316754_25);
+R[1] = v_2316928_25;
+saveCont(co, clofun55, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316834_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317646_25= co->res;
-Obj v_2316848_25 = R[1];
-if (True == v_2317646_25) {
+Obj v_2317740_25= co->res;
+Obj v_2316928_25 = R[1];
+if (True == v_2317740_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316848_25, True);
+coraCall1(co, v_2316928_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316848_25, False);
+coraCall1(co, v_2316928_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316849_25 = R[1];
-if (True == v_2316849_25) {
+Obj v_2316929_25 = R[1];
+if (True == v_2316929_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun53, 1, R);
+saveCont(co, clofun54, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v_2317511_25= co->res;
-if (True == v_2317511_25) {
+Obj v_2317605_25= co->res;
+if (True == v_2317605_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v_2316758_25 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317613_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317613_25) {
-Obj v_2317614_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317615_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317614_25);
-if (True == v_2317615_25) {
-Obj v_2317616_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317617_25 = PRIM_ISCONS(v_2317616_25);
-if (True == v_2317617_25) {
-Obj v_2317618_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317619_25 = PRIM_CAR(v_2317618_25);
-Obj v_a = v_2317619_25;
-Obj v_2317620_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317621_25 = PRIM_CDR(v_2317620_25);
-Obj v_2317622_25 = PRIM_ISCONS(v_2317621_25);
-if (True == v_2317622_25) {
-Obj v_2317623_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317624_25 = PRIM_CDR(v_2317623_25);
-Obj v_2317625_25 = PRIM_CAR(v_2317624_25);
-Obj v_b = v_2317625_25;
-Obj v_2317626_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317627_25 = PRIM_CDR(v_2317626_25);
-Obj v_2317628_25 = PRIM_CDR(v_2317627_25);
-Obj v_2317629_25 = PRIM_ISCONS(v_2317628_25);
-if (True == v_2317629_25) {
-Obj v_2317630_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317631_25 = PRIM_CDR(v_2317630_25);
-Obj v_2317632_25 = PRIM_CDR(v_2317631_25);
-Obj v_2317633_25 = PRIM_CAR(v_2317632_25);
-Obj v_c = v_2317633_25;
-Obj v_2317634_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317635_25 = PRIM_CDR(v_2317634_25);
-Obj v_2317636_25 = PRIM_CDR(v_2317635_25);
-Obj v_2317637_25 = PRIM_CDR(v_2317636_25);
-Obj v_2317638_25 = PRIM_EQ(Nil, v_2317637_25);
-if (True == v_2317638_25) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 3, clofun52, 1, 3, v_b, v_c, closureRef(R[0], 1)));
+Obj v_2316838_25 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317707_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317707_25) {
+Obj v_2317708_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317709_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317708_25);
+if (True == v_2317709_25) {
+Obj v_2317710_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317711_25 = PRIM_ISCONS(v_2317710_25);
+if (True == v_2317711_25) {
+Obj v_2317712_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317713_25 = PRIM_CAR(v_2317712_25);
+Obj v_a = v_2317713_25;
+Obj v_2317714_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317715_25 = PRIM_CDR(v_2317714_25);
+Obj v_2317716_25 = PRIM_ISCONS(v_2317715_25);
+if (True == v_2317716_25) {
+Obj v_2317717_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317718_25 = PRIM_CDR(v_2317717_25);
+Obj v_2317719_25 = PRIM_CAR(v_2317718_25);
+Obj v_b = v_2317719_25;
+Obj v_2317720_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317721_25 = PRIM_CDR(v_2317720_25);
+Obj v_2317722_25 = PRIM_CDR(v_2317721_25);
+Obj v_2317723_25 = PRIM_ISCONS(v_2317722_25);
+if (True == v_2317723_25) {
+Obj v_2317724_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317725_25 = PRIM_CDR(v_2317724_25);
+Obj v_2317726_25 = PRIM_CDR(v_2317725_25);
+Obj v_2317727_25 = PRIM_CAR(v_2317726_25);
+Obj v_c = v_2317727_25;
+Obj v_2317728_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317729_25 = PRIM_CDR(v_2317728_25);
+Obj v_2317730_25 = PRIM_CDR(v_2317729_25);
+Obj v_2317731_25 = PRIM_CDR(v_2317730_25);
+Obj v_2317732_25 = PRIM_EQ(Nil, v_2317731_25);
+if (True == v_2317732_25) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 3, clofun53, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316758_25);
+coraCall0(co, v_2316838_25);
 return;
 }
 }
@@ -5939,535 +5942,535 @@ return;
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
 R[1] = v_ra;
-saveCont(co, clofun52, 2, R);
+saveCont(co, clofun53, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2317640_25= co->res;
-Obj v_2317639_25 = R[1];
+Obj v_2317734_25= co->res;
+Obj v_2317733_25 = R[1];
 Obj v_ra = R[2];
-Obj v_2317641_25 = makeCons(co->gc, v_2317640_25, Nil);
-Obj v_2317642_25 = makeCons(co->gc, v_2317639_25, v_2317641_25);
-Obj v_2317643_25 = makeCons(co->gc, v_ra, v_2317642_25);
-Obj v_2317644_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317643_25);
-coraReturn(co, v_2317644_25);
+Obj v_2317735_25 = makeCons(co->gc, v_2317734_25, Nil);
+Obj v_2317736_25 = makeCons(co->gc, v_2317733_25, v_2317735_25);
+Obj v_2317737_25 = makeCons(co->gc, v_ra, v_2317736_25);
+Obj v_2317738_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317737_25);
+coraReturn(co, v_2317738_25);
 return;
 }
 case 2:
 {
-Obj v_2317639_25= co->res;
+Obj v_2317733_25= co->res;
 Obj v_ra = R[1];
-R[1] = v_2317639_25;
+R[1] = v_2317733_25;
 R[2] = v_ra;
-saveCont(co, clofun52, 1, R);
+saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316759_25 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317591_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317591_25) {
-Obj v_2317592_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317593_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317592_25);
-if (True == v_2317593_25) {
-Obj v_2317594_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317595_25 = PRIM_ISCONS(v_2317594_25);
-if (True == v_2317595_25) {
-Obj v_2317596_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317597_25 = PRIM_CAR(v_2317596_25);
-Obj v_a = v_2317597_25;
-Obj v_2317598_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317599_25 = PRIM_CDR(v_2317598_25);
-Obj v_2317600_25 = PRIM_ISCONS(v_2317599_25);
-if (True == v_2317600_25) {
-Obj v_2317601_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317602_25 = PRIM_CDR(v_2317601_25);
-Obj v_2317603_25 = PRIM_CAR(v_2317602_25);
-Obj v_b = v_2317603_25;
-Obj v_2317604_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317605_25 = PRIM_CDR(v_2317604_25);
-Obj v_2317606_25 = PRIM_CDR(v_2317605_25);
-Obj v_2317607_25 = PRIM_EQ(Nil, v_2317606_25);
-if (True == v_2317607_25) {
+Obj v_2316839_25 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317685_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317685_25) {
+Obj v_2317686_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317687_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317686_25);
+if (True == v_2317687_25) {
+Obj v_2317688_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317689_25 = PRIM_ISCONS(v_2317688_25);
+if (True == v_2317689_25) {
+Obj v_2317690_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317691_25 = PRIM_CAR(v_2317690_25);
+Obj v_a = v_2317691_25;
+Obj v_2317692_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317693_25 = PRIM_CDR(v_2317692_25);
+Obj v_2317694_25 = PRIM_ISCONS(v_2317693_25);
+if (True == v_2317694_25) {
+Obj v_2317695_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317696_25 = PRIM_CDR(v_2317695_25);
+Obj v_2317697_25 = PRIM_CAR(v_2317696_25);
+Obj v_b = v_2317697_25;
+Obj v_2317698_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317699_25 = PRIM_CDR(v_2317698_25);
+Obj v_2317700_25 = PRIM_CDR(v_2317699_25);
+Obj v_2317701_25 = PRIM_EQ(Nil, v_2317700_25);
+if (True == v_2317701_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 2, clofun50, 1, 2, v_b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 2, clofun51, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316759_25);
+coraCall0(co, v_2316839_25);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v_2317608_25 = primIsSymbol(v_ra);
-if (True == v_2317608_25) {
+Obj v_2317702_25 = primIsSymbol(v_ra);
+if (True == v_2317702_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = v_ra;
-saveCont(co, clofun50, 1, R);
+saveCont(co, clofun51, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v_2317609_25= co->res;
+Obj v_2317703_25= co->res;
 Obj v_ra = R[1];
-Obj v_2317610_25 = makeCons(co->gc, v_2317609_25, Nil);
-Obj v_2317611_25 = makeCons(co->gc, v_ra, v_2317610_25);
-Obj v_2317612_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317611_25);
-coraReturn(co, v_2317612_25);
+Obj v_2317704_25 = makeCons(co->gc, v_2317703_25, Nil);
+Obj v_2317705_25 = makeCons(co->gc, v_ra, v_2317704_25);
+Obj v_2317706_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317705_25);
+coraReturn(co, v_2317706_25);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316760_25 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317560_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317560_25) {
-Obj v_2317561_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317562_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317561_25);
-if (True == v_2317562_25) {
-Obj v_2317563_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317564_25 = PRIM_ISCONS(v_2317563_25);
-if (True == v_2317564_25) {
-Obj v_2317565_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317566_25 = PRIM_CAR(v_2317565_25);
-Obj v_a = v_2317566_25;
-Obj v_2317567_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317568_25 = PRIM_CDR(v_2317567_25);
-Obj v_2317569_25 = PRIM_ISCONS(v_2317568_25);
-if (True == v_2317569_25) {
-Obj v_2317570_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317571_25 = PRIM_CDR(v_2317570_25);
-Obj v_2317572_25 = PRIM_CAR(v_2317571_25);
-Obj v_b = v_2317572_25;
-Obj v_2317573_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317574_25 = PRIM_CDR(v_2317573_25);
-Obj v_2317575_25 = PRIM_CDR(v_2317574_25);
-Obj v_2317576_25 = PRIM_ISCONS(v_2317575_25);
-if (True == v_2317576_25) {
-Obj v_2317577_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317578_25 = PRIM_CDR(v_2317577_25);
-Obj v_2317579_25 = PRIM_CDR(v_2317578_25);
-Obj v_2317580_25 = PRIM_CAR(v_2317579_25);
-Obj v_c = v_2317580_25;
-Obj v_2317581_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317582_25 = PRIM_CDR(v_2317581_25);
-Obj v_2317583_25 = PRIM_CDR(v_2317582_25);
-Obj v_2317584_25 = PRIM_CDR(v_2317583_25);
-Obj v_2317585_25 = PRIM_EQ(Nil, v_2317584_25);
-if (True == v_2317585_25) {
+Obj v_2316840_25 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317654_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317654_25) {
+Obj v_2317655_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317656_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317655_25);
+if (True == v_2317656_25) {
+Obj v_2317657_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317658_25 = PRIM_ISCONS(v_2317657_25);
+if (True == v_2317658_25) {
+Obj v_2317659_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317660_25 = PRIM_CAR(v_2317659_25);
+Obj v_a = v_2317660_25;
+Obj v_2317661_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317662_25 = PRIM_CDR(v_2317661_25);
+Obj v_2317663_25 = PRIM_ISCONS(v_2317662_25);
+if (True == v_2317663_25) {
+Obj v_2317664_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317665_25 = PRIM_CDR(v_2317664_25);
+Obj v_2317666_25 = PRIM_CAR(v_2317665_25);
+Obj v_b = v_2317666_25;
+Obj v_2317667_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317668_25 = PRIM_CDR(v_2317667_25);
+Obj v_2317669_25 = PRIM_CDR(v_2317668_25);
+Obj v_2317670_25 = PRIM_ISCONS(v_2317669_25);
+if (True == v_2317670_25) {
+Obj v_2317671_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317672_25 = PRIM_CDR(v_2317671_25);
+Obj v_2317673_25 = PRIM_CDR(v_2317672_25);
+Obj v_2317674_25 = PRIM_CAR(v_2317673_25);
+Obj v_c = v_2317674_25;
+Obj v_2317675_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317676_25 = PRIM_CDR(v_2317675_25);
+Obj v_2317677_25 = PRIM_CDR(v_2317676_25);
+Obj v_2317678_25 = PRIM_CDR(v_2317677_25);
+Obj v_2317679_25 = PRIM_EQ(Nil, v_2317678_25);
+if (True == v_2317679_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_b, makeNative(co->gc, 2, clofun48, 1, 3, v_a, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_b, makeNative(co->gc, 2, clofun49, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316760_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316760_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316760_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316760_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316760_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316760_25);
+coraCall0(co, v_2316840_25);
 return;
 }
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rb = R[1];
 R[1] = v_rb;
-saveCont(co, clofun48, 1, R);
+saveCont(co, clofun49, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2317586_25= co->res;
+Obj v_2317680_25= co->res;
 Obj v_rb = R[1];
-Obj v_2317587_25 = makeCons(co->gc, v_2317586_25, Nil);
-Obj v_2317588_25 = makeCons(co->gc, v_rb, v_2317587_25);
-Obj v_2317589_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317588_25);
-Obj v_2317590_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317589_25);
-coraReturn(co, v_2317590_25);
+Obj v_2317681_25 = makeCons(co->gc, v_2317680_25, Nil);
+Obj v_2317682_25 = makeCons(co->gc, v_rb, v_2317681_25);
+Obj v_2317683_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317682_25);
+Obj v_2317684_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317683_25);
+coraReturn(co, v_2317684_25);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316761_25 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317516_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317516_25) {
-Obj v_2317517_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317518_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317517_25);
-if (True == v_2317518_25) {
-Obj v_2317519_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317520_25 = PRIM_ISCONS(v_2317519_25);
-if (True == v_2317520_25) {
-Obj v_2317521_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317522_25 = PRIM_CAR(v_2317521_25);
-Obj v_2317523_25 = PRIM_ISCONS(v_2317522_25);
-if (True == v_2317523_25) {
-Obj v_2317524_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317525_25 = PRIM_CAR(v_2317524_25);
-Obj v_2317526_25 = PRIM_CAR(v_2317525_25);
-Obj v_2317527_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317526_25);
-if (True == v_2317527_25) {
-Obj v_2317528_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317529_25 = PRIM_CAR(v_2317528_25);
-Obj v_2317530_25 = PRIM_CDR(v_2317529_25);
-Obj v_2317531_25 = PRIM_ISCONS(v_2317530_25);
-if (True == v_2317531_25) {
-Obj v_2317532_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317533_25 = PRIM_CAR(v_2317532_25);
-Obj v_2317534_25 = PRIM_CDR(v_2317533_25);
-Obj v_2317535_25 = PRIM_CAR(v_2317534_25);
-Obj v_args = v_2317535_25;
-Obj v_2317536_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317537_25 = PRIM_CAR(v_2317536_25);
-Obj v_2317538_25 = PRIM_CDR(v_2317537_25);
-Obj v_2317539_25 = PRIM_CDR(v_2317538_25);
-Obj v_2317540_25 = PRIM_ISCONS(v_2317539_25);
-if (True == v_2317540_25) {
-Obj v_2317541_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317542_25 = PRIM_CAR(v_2317541_25);
-Obj v_2317543_25 = PRIM_CDR(v_2317542_25);
-Obj v_2317544_25 = PRIM_CDR(v_2317543_25);
-Obj v_2317545_25 = PRIM_CAR(v_2317544_25);
-Obj v_body = v_2317545_25;
-Obj v_2317546_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317547_25 = PRIM_CAR(v_2317546_25);
-Obj v_2317548_25 = PRIM_CDR(v_2317547_25);
-Obj v_2317549_25 = PRIM_CDR(v_2317548_25);
-Obj v_2317550_25 = PRIM_CDR(v_2317549_25);
-Obj v_2317551_25 = PRIM_EQ(Nil, v_2317550_25);
-if (True == v_2317551_25) {
-Obj v_2317552_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317553_25 = PRIM_CDR(v_2317552_25);
-Obj v_frees = v_2317553_25;
+Obj v_2316841_25 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317610_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317610_25) {
+Obj v_2317611_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317612_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317611_25);
+if (True == v_2317612_25) {
+Obj v_2317613_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317614_25 = PRIM_ISCONS(v_2317613_25);
+if (True == v_2317614_25) {
+Obj v_2317615_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317616_25 = PRIM_CAR(v_2317615_25);
+Obj v_2317617_25 = PRIM_ISCONS(v_2317616_25);
+if (True == v_2317617_25) {
+Obj v_2317618_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317619_25 = PRIM_CAR(v_2317618_25);
+Obj v_2317620_25 = PRIM_CAR(v_2317619_25);
+Obj v_2317621_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317620_25);
+if (True == v_2317621_25) {
+Obj v_2317622_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317623_25 = PRIM_CAR(v_2317622_25);
+Obj v_2317624_25 = PRIM_CDR(v_2317623_25);
+Obj v_2317625_25 = PRIM_ISCONS(v_2317624_25);
+if (True == v_2317625_25) {
+Obj v_2317626_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317627_25 = PRIM_CAR(v_2317626_25);
+Obj v_2317628_25 = PRIM_CDR(v_2317627_25);
+Obj v_2317629_25 = PRIM_CAR(v_2317628_25);
+Obj v_args = v_2317629_25;
+Obj v_2317630_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317631_25 = PRIM_CAR(v_2317630_25);
+Obj v_2317632_25 = PRIM_CDR(v_2317631_25);
+Obj v_2317633_25 = PRIM_CDR(v_2317632_25);
+Obj v_2317634_25 = PRIM_ISCONS(v_2317633_25);
+if (True == v_2317634_25) {
+Obj v_2317635_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317636_25 = PRIM_CAR(v_2317635_25);
+Obj v_2317637_25 = PRIM_CDR(v_2317636_25);
+Obj v_2317638_25 = PRIM_CDR(v_2317637_25);
+Obj v_2317639_25 = PRIM_CAR(v_2317638_25);
+Obj v_body = v_2317639_25;
+Obj v_2317640_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317641_25 = PRIM_CAR(v_2317640_25);
+Obj v_2317642_25 = PRIM_CDR(v_2317641_25);
+Obj v_2317643_25 = PRIM_CDR(v_2317642_25);
+Obj v_2317644_25 = PRIM_CDR(v_2317643_25);
+Obj v_2317645_25 = PRIM_EQ(Nil, v_2317644_25);
+if (True == v_2317645_25) {
+Obj v_2317646_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317647_25 = PRIM_CDR(v_2317646_25);
+Obj v_frees = v_2317647_25;
 R[1] = v_args;
 R[2] = v_frees;
-saveCont(co, clofun47, 1, R);
+saveCont(co, clofun48, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_body, globalRef(co, getBinding(co, packageID, 71)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316761_25);
+coraCall0(co, v_2316841_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317554_25= co->res;
+Obj v_2317648_25= co->res;
 Obj v_args = R[1];
 Obj v_frees = R[2];
-Obj v_2317555_25 = makeCons(co->gc, v_2317554_25, Nil);
-Obj v_2317556_25 = makeCons(co->gc, v_args, v_2317555_25);
-Obj v_2317557_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317556_25);
-Obj v_2317558_25 = makeCons(co->gc, v_2317557_25, v_frees);
-Obj v_2317559_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317558_25);
+Obj v_2317649_25 = makeCons(co->gc, v_2317648_25, Nil);
+Obj v_2317650_25 = makeCons(co->gc, v_args, v_2317649_25);
+Obj v_2317651_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317650_25);
+Obj v_2317652_25 = makeCons(co->gc, v_2317651_25, v_frees);
+Obj v_2317653_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317652_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v_2317559_25);
+coraCall1(co, closureRef(R[0], 1), v_2317653_25);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317512_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317512_25) {
-Obj v_2317513_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317513_25;
-Obj v_2317514_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317514_25;
-Obj v_2317515_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317606_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317606_25) {
+Obj v_2317607_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317607_25;
+Obj v_2317608_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317608_25;
+Obj v_2317609_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), v_2317515_25, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), v_2317609_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2317508_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2317509_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317508_25);
-coraReturn(co, v_2317509_25);
+Obj v_2317602_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2317603_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317602_25);
+coraReturn(co, v_2317603_25);
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316747_25 = R[1];
-Obj v_2316748_25 = R[2];
-R[1] = v_2316748_25;
-R[2] = v_2316747_25;
-saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316748_25);
+Obj v_2316827_25 = R[1];
+Obj v_2316828_25 = R[2];
+R[1] = v_2316828_25;
+R[2] = v_2316827_25;
+saveCont(co, clofun45, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316828_25);
 return;
 }
 case 1:
 {
-Obj v_2317437_25= co->res;
-Obj v_2316748_25 = R[1];
-Obj v_pos = v_2317437_25;
-Obj v_2317438_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
-if (True == v_2317438_25) {
-coraReturn(co, v_2316748_25);
+Obj v_2317531_25= co->res;
+Obj v_2316828_25 = R[1];
+Obj v_pos = v_2317531_25;
+Obj v_2317532_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2317532_25) {
+coraReturn(co, v_2316828_25);
 return;
 } else {
-Obj v_2317439_25 = makeCons(co->gc, v_pos, Nil);
-Obj v_2317440_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317439_25);
-coraReturn(co, v_2317440_25);
+Obj v_2317533_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2317534_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317533_25);
+coraReturn(co, v_2317534_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2317504_25= co->res;
-Obj v_2317502_25 = R[1];
-Obj v_2317505_25 = makeCons(co->gc, v_2317502_25, v_2317504_25);
-Obj v_2317506_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317505_25);
-coraReturn(co, v_2317506_25);
+Obj v_2317598_25= co->res;
+Obj v_2317596_25 = R[1];
+Obj v_2317599_25 = makeCons(co->gc, v_2317596_25, v_2317598_25);
+Obj v_2317600_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317599_25);
+coraReturn(co, v_2317600_25);
 return;
 }
 case 3:
 {
-Obj v_2317503_25= co->res;
+Obj v_2317597_25= co->res;
 Obj v_fvs1 = R[1];
-Obj v_2317502_25 = R[2];
-R[1] = v_2317502_25;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317503_25, v_fvs1);
+Obj v_2317596_25 = R[2];
+R[1] = v_2317596_25;
+saveCont(co, clofun45, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317597_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2317499_25= co->res;
+Obj v_2317593_25= co->res;
 Obj v_args = R[1];
-Obj v_2316747_25 = R[2];
+Obj v_2316827_25 = R[2];
 Obj v_fvs1 = R[3];
-Obj v_2317500_25 = makeCons(co->gc, v_2317499_25, Nil);
-Obj v_2317501_25 = makeCons(co->gc, v_args, v_2317500_25);
-Obj v_2317502_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317501_25);
+Obj v_2317594_25 = makeCons(co->gc, v_2317593_25, Nil);
+Obj v_2317595_25 = makeCons(co->gc, v_args, v_2317594_25);
+Obj v_2317596_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317595_25);
 R[1] = v_fvs1;
-R[2] = v_2317502_25;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2316747_25);
+R[2] = v_2317596_25;
+saveCont(co, clofun45, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2316827_25);
 return;
 }
 case 5:
 {
-Obj v_2317498_25= co->res;
+Obj v_2317592_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2316747_25 = R[3];
-Obj v_fvs1 = v_2317498_25;
+Obj v_2316827_25 = R[3];
+Obj v_fvs1 = v_2317592_25;
 R[1] = v_args;
-R[2] = v_2316747_25;
+R[2] = v_2316827_25;
 R[3] = v_fvs1;
-saveCont(co, clofun44, 4, R);
+saveCont(co, clofun45, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), v_fvs1, v_body);
 return;
 }
 case 6:
 {
-Obj v_2317435_25= co->res;
-Obj v_2316748_25 = R[1];
-Obj v_2316747_25 = R[2];
-if (True == v_2317435_25) {
-coraReturn(co, v_2316748_25);
+Obj v_2317529_25= co->res;
+Obj v_2316828_25 = R[1];
+Obj v_2316827_25 = R[2];
+if (True == v_2317529_25) {
+coraReturn(co, v_2316828_25);
 return;
 } else {
-Obj v_2317436_25 = primIsSymbol(v_2316748_25);
-if (True == v_2317436_25) {
-R[1] = v_2316748_25;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_2316748_25, v_2316747_25);
+Obj v_2317530_25 = primIsSymbol(v_2316828_25);
+if (True == v_2317530_25) {
+R[1] = v_2316828_25;
+saveCont(co, clofun45, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v_2316828_25, v_2316827_25);
 return;
 } else {
-Obj v_2316751_25 = makeNative(co->gc, 3, clofun43, 0, 2, v_2316748_25, v_2316747_25);
-Obj v_2317478_25 = PRIM_ISCONS(v_2316748_25);
-if (True == v_2317478_25) {
-Obj v_2317479_25 = PRIM_CAR(v_2316748_25);
-Obj v_2317480_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317479_25);
-if (True == v_2317480_25) {
-Obj v_2317481_25 = PRIM_CDR(v_2316748_25);
-Obj v_2317482_25 = PRIM_ISCONS(v_2317481_25);
-if (True == v_2317482_25) {
-Obj v_2317483_25 = PRIM_CDR(v_2316748_25);
-Obj v_2317484_25 = PRIM_CAR(v_2317483_25);
-Obj v_args = v_2317484_25;
-Obj v_2317485_25 = PRIM_CDR(v_2316748_25);
-Obj v_2317486_25 = PRIM_CDR(v_2317485_25);
-Obj v_2317487_25 = PRIM_ISCONS(v_2317486_25);
-if (True == v_2317487_25) {
-Obj v_2317488_25 = PRIM_CDR(v_2316748_25);
-Obj v_2317489_25 = PRIM_CDR(v_2317488_25);
-Obj v_2317490_25 = PRIM_CAR(v_2317489_25);
-Obj v_body = v_2317490_25;
-Obj v_2317491_25 = PRIM_CDR(v_2316748_25);
-Obj v_2317492_25 = PRIM_CDR(v_2317491_25);
-Obj v_2317493_25 = PRIM_CDR(v_2317492_25);
-Obj v_2317494_25 = PRIM_EQ(Nil, v_2317493_25);
-if (True == v_2317494_25) {
-Obj v_2317495_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2317496_25 = makeCons(co->gc, v_args, v_2317495_25);
-Obj v_2317497_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317496_25);
+Obj v_2316831_25 = makeNative(co->gc, 3, clofun44, 0, 2, v_2316828_25, v_2316827_25);
+Obj v_2317572_25 = PRIM_ISCONS(v_2316828_25);
+if (True == v_2317572_25) {
+Obj v_2317573_25 = PRIM_CAR(v_2316828_25);
+Obj v_2317574_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317573_25);
+if (True == v_2317574_25) {
+Obj v_2317575_25 = PRIM_CDR(v_2316828_25);
+Obj v_2317576_25 = PRIM_ISCONS(v_2317575_25);
+if (True == v_2317576_25) {
+Obj v_2317577_25 = PRIM_CDR(v_2316828_25);
+Obj v_2317578_25 = PRIM_CAR(v_2317577_25);
+Obj v_args = v_2317578_25;
+Obj v_2317579_25 = PRIM_CDR(v_2316828_25);
+Obj v_2317580_25 = PRIM_CDR(v_2317579_25);
+Obj v_2317581_25 = PRIM_ISCONS(v_2317580_25);
+if (True == v_2317581_25) {
+Obj v_2317582_25 = PRIM_CDR(v_2316828_25);
+Obj v_2317583_25 = PRIM_CDR(v_2317582_25);
+Obj v_2317584_25 = PRIM_CAR(v_2317583_25);
+Obj v_body = v_2317584_25;
+Obj v_2317585_25 = PRIM_CDR(v_2316828_25);
+Obj v_2317586_25 = PRIM_CDR(v_2317585_25);
+Obj v_2317587_25 = PRIM_CDR(v_2317586_25);
+Obj v_2317588_25 = PRIM_EQ(Nil, v_2317587_25);
+if (True == v_2317588_25) {
+Obj v_2317589_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2317590_25 = makeCons(co->gc, v_args, v_2317589_25);
+Obj v_2317591_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317590_25);
 R[1] = v_body;
 R[2] = v_args;
-R[3] = v_2316747_25;
-saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317497_25);
+R[3] = v_2316827_25;
+saveCont(co, clofun45, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317591_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316831_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316831_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316831_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316831_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316751_25);
+coraCall0(co, v_2316831_25);
 return;
 }
 }
@@ -6476,226 +6479,226 @@ return;
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316752_25 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317446_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317446_25) {
-Obj v_2317447_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317448_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317447_25);
-if (True == v_2317448_25) {
-Obj v_2317449_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317450_25 = PRIM_ISCONS(v_2317449_25);
-if (True == v_2317450_25) {
-Obj v_2317451_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317452_25 = PRIM_CAR(v_2317451_25);
-Obj v_a = v_2317452_25;
-Obj v_2317453_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317454_25 = PRIM_CDR(v_2317453_25);
-Obj v_2317455_25 = PRIM_ISCONS(v_2317454_25);
-if (True == v_2317455_25) {
-Obj v_2317456_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317457_25 = PRIM_CDR(v_2317456_25);
-Obj v_2317458_25 = PRIM_CAR(v_2317457_25);
-Obj v_b = v_2317458_25;
-Obj v_2317459_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317460_25 = PRIM_CDR(v_2317459_25);
-Obj v_2317461_25 = PRIM_CDR(v_2317460_25);
-Obj v_2317462_25 = PRIM_ISCONS(v_2317461_25);
-if (True == v_2317462_25) {
-Obj v_2317463_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317464_25 = PRIM_CDR(v_2317463_25);
-Obj v_2317465_25 = PRIM_CDR(v_2317464_25);
-Obj v_2317466_25 = PRIM_CAR(v_2317465_25);
-Obj v_c = v_2317466_25;
-Obj v_2317467_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317468_25 = PRIM_CDR(v_2317467_25);
-Obj v_2317469_25 = PRIM_CDR(v_2317468_25);
-Obj v_2317470_25 = PRIM_CDR(v_2317469_25);
-Obj v_2317471_25 = PRIM_EQ(Nil, v_2317470_25);
-if (True == v_2317471_25) {
+Obj v_2316832_25 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317540_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317540_25) {
+Obj v_2317541_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317542_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317541_25);
+if (True == v_2317542_25) {
+Obj v_2317543_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317544_25 = PRIM_ISCONS(v_2317543_25);
+if (True == v_2317544_25) {
+Obj v_2317545_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317546_25 = PRIM_CAR(v_2317545_25);
+Obj v_a = v_2317546_25;
+Obj v_2317547_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317548_25 = PRIM_CDR(v_2317547_25);
+Obj v_2317549_25 = PRIM_ISCONS(v_2317548_25);
+if (True == v_2317549_25) {
+Obj v_2317550_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317551_25 = PRIM_CDR(v_2317550_25);
+Obj v_2317552_25 = PRIM_CAR(v_2317551_25);
+Obj v_b = v_2317552_25;
+Obj v_2317553_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317554_25 = PRIM_CDR(v_2317553_25);
+Obj v_2317555_25 = PRIM_CDR(v_2317554_25);
+Obj v_2317556_25 = PRIM_ISCONS(v_2317555_25);
+if (True == v_2317556_25) {
+Obj v_2317557_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317558_25 = PRIM_CDR(v_2317557_25);
+Obj v_2317559_25 = PRIM_CDR(v_2317558_25);
+Obj v_2317560_25 = PRIM_CAR(v_2317559_25);
+Obj v_c = v_2317560_25;
+Obj v_2317561_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317562_25 = PRIM_CDR(v_2317561_25);
+Obj v_2317563_25 = PRIM_CDR(v_2317562_25);
+Obj v_2317564_25 = PRIM_CDR(v_2317563_25);
+Obj v_2317565_25 = PRIM_EQ(Nil, v_2317564_25);
+if (True == v_2317565_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun43, 2, R);
+saveCont(co, clofun44, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316752_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316752_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316752_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316752_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316752_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316752_25);
+coraCall0(co, v_2316832_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317473_25= co->res;
-Obj v_2317472_25 = R[1];
+Obj v_2317567_25= co->res;
+Obj v_2317566_25 = R[1];
 Obj v_a = R[2];
-Obj v_2317474_25 = makeCons(co->gc, v_2317473_25, Nil);
-Obj v_2317475_25 = makeCons(co->gc, v_2317472_25, v_2317474_25);
-Obj v_2317476_25 = makeCons(co->gc, v_a, v_2317475_25);
-Obj v_2317477_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317476_25);
-coraReturn(co, v_2317477_25);
+Obj v_2317568_25 = makeCons(co->gc, v_2317567_25, Nil);
+Obj v_2317569_25 = makeCons(co->gc, v_2317566_25, v_2317568_25);
+Obj v_2317570_25 = makeCons(co->gc, v_a, v_2317569_25);
+Obj v_2317571_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317570_25);
+coraReturn(co, v_2317571_25);
 return;
 }
 case 2:
 {
-Obj v_2317472_25= co->res;
+Obj v_2317566_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-R[1] = v_2317472_25;
+R[1] = v_2317566_25;
 R[2] = v_a;
-saveCont(co, clofun43, 1, R);
+saveCont(co, clofun44, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), v_c);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317441_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317441_25) {
-Obj v_2317442_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317442_25;
-Obj v_2317443_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317443_25;
+Obj v_2317535_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317535_25) {
+Obj v_2317536_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317536_25;
+Obj v_2317537_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317537_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun42, 1, R);
+saveCont(co, clofun43, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317444_25= co->res;
+Obj v_2317538_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2317445_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2317539_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317444_25, v_2317445_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317538_25, v_2317539_25);
 return;
 }
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316734_25 = R[1];
-R[1] = v_2316734_25;
-saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316734_25);
+Obj v_2316814_25 = R[1];
+R[1] = v_2316814_25;
+saveCont(co, clofun42, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316814_25);
 return;
 }
 case 1:
 {
-Obj v_2317433_25= co->res;
+Obj v_2317527_25= co->res;
 Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317433_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317527_25, v_args);
 return;
 }
 case 2:
 {
-Obj v_2317260_25= co->res;
-Obj v_2316734_25 = R[1];
-if (True == v_2317260_25) {
+Obj v_2317354_25= co->res;
+Obj v_2316814_25 = R[1];
+if (True == v_2317354_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317261_25 = primIsSymbol(v_2316734_25);
-if (True == v_2317261_25) {
-Obj v_2317262_25 = makeCons(co->gc, v_2316734_25, Nil);
-coraReturn(co, v_2317262_25);
+Obj v_2317355_25 = primIsSymbol(v_2316814_25);
+if (True == v_2317355_25) {
+Obj v_2317356_25 = makeCons(co->gc, v_2316814_25, Nil);
+coraReturn(co, v_2317356_25);
 return;
 } else {
-Obj v_2316737_25 = makeNative(co->gc, 1, clofun40, 0, 1, v_2316734_25);
-Obj v_2317416_25 = PRIM_ISCONS(v_2316734_25);
-if (True == v_2317416_25) {
-Obj v_2317417_25 = PRIM_CAR(v_2316734_25);
-Obj v_2317418_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317417_25);
-if (True == v_2317418_25) {
-Obj v_2317419_25 = PRIM_CDR(v_2316734_25);
-Obj v_2317420_25 = PRIM_ISCONS(v_2317419_25);
-if (True == v_2317420_25) {
-Obj v_2317421_25 = PRIM_CDR(v_2316734_25);
-Obj v_2317422_25 = PRIM_CAR(v_2317421_25);
-Obj v_args = v_2317422_25;
-Obj v_2317423_25 = PRIM_CDR(v_2316734_25);
-Obj v_2317424_25 = PRIM_CDR(v_2317423_25);
-Obj v_2317425_25 = PRIM_ISCONS(v_2317424_25);
-if (True == v_2317425_25) {
-Obj v_2317426_25 = PRIM_CDR(v_2316734_25);
-Obj v_2317427_25 = PRIM_CDR(v_2317426_25);
-Obj v_2317428_25 = PRIM_CAR(v_2317427_25);
-Obj v_body = v_2317428_25;
-Obj v_2317429_25 = PRIM_CDR(v_2316734_25);
-Obj v_2317430_25 = PRIM_CDR(v_2317429_25);
-Obj v_2317431_25 = PRIM_CDR(v_2317430_25);
-Obj v_2317432_25 = PRIM_EQ(Nil, v_2317431_25);
-if (True == v_2317432_25) {
+Obj v_2316817_25 = makeNative(co->gc, 1, clofun41, 0, 1, v_2316814_25);
+Obj v_2317510_25 = PRIM_ISCONS(v_2316814_25);
+if (True == v_2317510_25) {
+Obj v_2317511_25 = PRIM_CAR(v_2316814_25);
+Obj v_2317512_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317511_25);
+if (True == v_2317512_25) {
+Obj v_2317513_25 = PRIM_CDR(v_2316814_25);
+Obj v_2317514_25 = PRIM_ISCONS(v_2317513_25);
+if (True == v_2317514_25) {
+Obj v_2317515_25 = PRIM_CDR(v_2316814_25);
+Obj v_2317516_25 = PRIM_CAR(v_2317515_25);
+Obj v_args = v_2317516_25;
+Obj v_2317517_25 = PRIM_CDR(v_2316814_25);
+Obj v_2317518_25 = PRIM_CDR(v_2317517_25);
+Obj v_2317519_25 = PRIM_ISCONS(v_2317518_25);
+if (True == v_2317519_25) {
+Obj v_2317520_25 = PRIM_CDR(v_2316814_25);
+Obj v_2317521_25 = PRIM_CDR(v_2317520_25);
+Obj v_2317522_25 = PRIM_CAR(v_2317521_25);
+Obj v_body = v_2317522_25;
+Obj v_2317523_25 = PRIM_CDR(v_2316814_25);
+Obj v_2317524_25 = PRIM_CDR(v_2317523_25);
+Obj v_2317525_25 = PRIM_CDR(v_2317524_25);
+Obj v_2317526_25 = PRIM_EQ(Nil, v_2317525_25);
+if (True == v_2317526_25) {
 R[1] = v_args;
-saveCont(co, clofun41, 1, R);
+saveCont(co, clofun42, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316737_25);
+coraCall0(co, v_2316817_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316737_25);
+coraCall0(co, v_2316817_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316737_25);
+coraCall0(co, v_2316817_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316737_25);
+coraCall0(co, v_2316817_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316737_25);
+coraCall0(co, v_2316817_25);
 return;
 }
 }
@@ -6704,859 +6707,859 @@ return;
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316738_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v_2317386_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317386_25) {
-Obj v_2317387_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317388_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317387_25);
-if (True == v_2317388_25) {
-Obj v_2317389_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317390_25 = PRIM_ISCONS(v_2317389_25);
-if (True == v_2317390_25) {
-Obj v_2317391_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317392_25 = PRIM_CAR(v_2317391_25);
-Obj v_x = v_2317392_25;
-Obj v_2317393_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317394_25 = PRIM_CDR(v_2317393_25);
-Obj v_2317395_25 = PRIM_ISCONS(v_2317394_25);
-if (True == v_2317395_25) {
-Obj v_2317396_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317397_25 = PRIM_CDR(v_2317396_25);
-Obj v_2317398_25 = PRIM_CAR(v_2317397_25);
-Obj v_y = v_2317398_25;
-Obj v_2317399_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317400_25 = PRIM_CDR(v_2317399_25);
-Obj v_2317401_25 = PRIM_CDR(v_2317400_25);
-Obj v_2317402_25 = PRIM_ISCONS(v_2317401_25);
-if (True == v_2317402_25) {
-Obj v_2317403_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317404_25 = PRIM_CDR(v_2317403_25);
-Obj v_2317405_25 = PRIM_CDR(v_2317404_25);
-Obj v_2317406_25 = PRIM_CAR(v_2317405_25);
-Obj v_z = v_2317406_25;
-Obj v_2317407_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317408_25 = PRIM_CDR(v_2317407_25);
-Obj v_2317409_25 = PRIM_CDR(v_2317408_25);
-Obj v_2317410_25 = PRIM_CDR(v_2317409_25);
-Obj v_2317411_25 = PRIM_EQ(Nil, v_2317410_25);
-if (True == v_2317411_25) {
-Obj v_2317412_25 = makeCons(co->gc, v_z, Nil);
-Obj v_2317413_25 = makeCons(co->gc, v_y, v_2317412_25);
-Obj v_2317414_25 = makeCons(co->gc, v_x, v_2317413_25);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317414_25);
+Obj v_2316818_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v_2317480_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317480_25) {
+Obj v_2317481_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317482_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317481_25);
+if (True == v_2317482_25) {
+Obj v_2317483_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317484_25 = PRIM_ISCONS(v_2317483_25);
+if (True == v_2317484_25) {
+Obj v_2317485_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317486_25 = PRIM_CAR(v_2317485_25);
+Obj v_x = v_2317486_25;
+Obj v_2317487_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317488_25 = PRIM_CDR(v_2317487_25);
+Obj v_2317489_25 = PRIM_ISCONS(v_2317488_25);
+if (True == v_2317489_25) {
+Obj v_2317490_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317491_25 = PRIM_CDR(v_2317490_25);
+Obj v_2317492_25 = PRIM_CAR(v_2317491_25);
+Obj v_y = v_2317492_25;
+Obj v_2317493_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317494_25 = PRIM_CDR(v_2317493_25);
+Obj v_2317495_25 = PRIM_CDR(v_2317494_25);
+Obj v_2317496_25 = PRIM_ISCONS(v_2317495_25);
+if (True == v_2317496_25) {
+Obj v_2317497_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317498_25 = PRIM_CDR(v_2317497_25);
+Obj v_2317499_25 = PRIM_CDR(v_2317498_25);
+Obj v_2317500_25 = PRIM_CAR(v_2317499_25);
+Obj v_z = v_2317500_25;
+Obj v_2317501_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317502_25 = PRIM_CDR(v_2317501_25);
+Obj v_2317503_25 = PRIM_CDR(v_2317502_25);
+Obj v_2317504_25 = PRIM_CDR(v_2317503_25);
+Obj v_2317505_25 = PRIM_EQ(Nil, v_2317504_25);
+if (True == v_2317505_25) {
+Obj v_2317506_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2317507_25 = makeCons(co->gc, v_y, v_2317506_25);
+Obj v_2317508_25 = makeCons(co->gc, v_x, v_2317507_25);
+saveCont(co, clofun41, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317508_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316818_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316818_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316818_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316818_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316818_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316738_25);
+coraCall0(co, v_2316818_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317415_25= co->res;
+Obj v_2317509_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317415_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317509_25);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316739_25 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v_2317366_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317366_25) {
-Obj v_2317367_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317368_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317367_25);
-if (True == v_2317368_25) {
-Obj v_2317369_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317370_25 = PRIM_ISCONS(v_2317369_25);
-if (True == v_2317370_25) {
-Obj v_2317371_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317372_25 = PRIM_CAR(v_2317371_25);
-Obj v_x = v_2317372_25;
-Obj v_2317373_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317374_25 = PRIM_CDR(v_2317373_25);
-Obj v_2317375_25 = PRIM_ISCONS(v_2317374_25);
-if (True == v_2317375_25) {
-Obj v_2317376_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317377_25 = PRIM_CDR(v_2317376_25);
-Obj v_2317378_25 = PRIM_CAR(v_2317377_25);
-Obj v_y = v_2317378_25;
-Obj v_2317379_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317380_25 = PRIM_CDR(v_2317379_25);
-Obj v_2317381_25 = PRIM_CDR(v_2317380_25);
-Obj v_2317382_25 = PRIM_EQ(Nil, v_2317381_25);
-if (True == v_2317382_25) {
-Obj v_2317383_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2317384_25 = makeCons(co->gc, v_x, v_2317383_25);
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317384_25);
+Obj v_2316819_25 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v_2317460_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317460_25) {
+Obj v_2317461_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317462_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317461_25);
+if (True == v_2317462_25) {
+Obj v_2317463_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317464_25 = PRIM_ISCONS(v_2317463_25);
+if (True == v_2317464_25) {
+Obj v_2317465_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317466_25 = PRIM_CAR(v_2317465_25);
+Obj v_x = v_2317466_25;
+Obj v_2317467_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317468_25 = PRIM_CDR(v_2317467_25);
+Obj v_2317469_25 = PRIM_ISCONS(v_2317468_25);
+if (True == v_2317469_25) {
+Obj v_2317470_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317471_25 = PRIM_CDR(v_2317470_25);
+Obj v_2317472_25 = PRIM_CAR(v_2317471_25);
+Obj v_y = v_2317472_25;
+Obj v_2317473_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317474_25 = PRIM_CDR(v_2317473_25);
+Obj v_2317475_25 = PRIM_CDR(v_2317474_25);
+Obj v_2317476_25 = PRIM_EQ(Nil, v_2317475_25);
+if (True == v_2317476_25) {
+Obj v_2317477_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2317478_25 = makeCons(co->gc, v_x, v_2317477_25);
+saveCont(co, clofun40, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317478_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316739_25);
+coraCall0(co, v_2316819_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316739_25);
+coraCall0(co, v_2316819_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316739_25);
+coraCall0(co, v_2316819_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316739_25);
+coraCall0(co, v_2316819_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316739_25);
+coraCall0(co, v_2316819_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317385_25= co->res;
+Obj v_2317479_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317385_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317479_25);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316740_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v_2317336_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317336_25) {
-Obj v_2317337_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317338_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317337_25);
-if (True == v_2317338_25) {
-Obj v_2317339_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317340_25 = PRIM_ISCONS(v_2317339_25);
-if (True == v_2317340_25) {
-Obj v_2317341_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317342_25 = PRIM_CAR(v_2317341_25);
-Obj v_a = v_2317342_25;
-Obj v_2317343_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317344_25 = PRIM_CDR(v_2317343_25);
-Obj v_2317345_25 = PRIM_ISCONS(v_2317344_25);
-if (True == v_2317345_25) {
-Obj v_2317346_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317347_25 = PRIM_CDR(v_2317346_25);
-Obj v_2317348_25 = PRIM_CAR(v_2317347_25);
-Obj v_b = v_2317348_25;
-Obj v_2317349_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317350_25 = PRIM_CDR(v_2317349_25);
-Obj v_2317351_25 = PRIM_CDR(v_2317350_25);
-Obj v_2317352_25 = PRIM_ISCONS(v_2317351_25);
-if (True == v_2317352_25) {
-Obj v_2317353_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317354_25 = PRIM_CDR(v_2317353_25);
-Obj v_2317355_25 = PRIM_CDR(v_2317354_25);
-Obj v_2317356_25 = PRIM_CAR(v_2317355_25);
-Obj v_c = v_2317356_25;
-Obj v_2317357_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317358_25 = PRIM_CDR(v_2317357_25);
-Obj v_2317359_25 = PRIM_CDR(v_2317358_25);
-Obj v_2317360_25 = PRIM_CDR(v_2317359_25);
-Obj v_2317361_25 = PRIM_EQ(Nil, v_2317360_25);
-if (True == v_2317361_25) {
+Obj v_2316820_25 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v_2317430_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317430_25) {
+Obj v_2317431_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317432_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317431_25);
+if (True == v_2317432_25) {
+Obj v_2317433_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317434_25 = PRIM_ISCONS(v_2317433_25);
+if (True == v_2317434_25) {
+Obj v_2317435_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317436_25 = PRIM_CAR(v_2317435_25);
+Obj v_a = v_2317436_25;
+Obj v_2317437_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317438_25 = PRIM_CDR(v_2317437_25);
+Obj v_2317439_25 = PRIM_ISCONS(v_2317438_25);
+if (True == v_2317439_25) {
+Obj v_2317440_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317441_25 = PRIM_CDR(v_2317440_25);
+Obj v_2317442_25 = PRIM_CAR(v_2317441_25);
+Obj v_b = v_2317442_25;
+Obj v_2317443_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317444_25 = PRIM_CDR(v_2317443_25);
+Obj v_2317445_25 = PRIM_CDR(v_2317444_25);
+Obj v_2317446_25 = PRIM_ISCONS(v_2317445_25);
+if (True == v_2317446_25) {
+Obj v_2317447_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317448_25 = PRIM_CDR(v_2317447_25);
+Obj v_2317449_25 = PRIM_CDR(v_2317448_25);
+Obj v_2317450_25 = PRIM_CAR(v_2317449_25);
+Obj v_c = v_2317450_25;
+Obj v_2317451_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317452_25 = PRIM_CDR(v_2317451_25);
+Obj v_2317453_25 = PRIM_CDR(v_2317452_25);
+Obj v_2317454_25 = PRIM_CDR(v_2317453_25);
+Obj v_2317455_25 = PRIM_EQ(Nil, v_2317454_25);
+if (True == v_2317455_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun38, 3, R);
+saveCont(co, clofun39, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316740_25);
+coraCall0(co, v_2316820_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316740_25);
+coraCall0(co, v_2316820_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316740_25);
+coraCall0(co, v_2316820_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316740_25);
+coraCall0(co, v_2316820_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316740_25);
+coraCall0(co, v_2316820_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316740_25);
+coraCall0(co, v_2316820_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317365_25= co->res;
-Obj v_2317362_25 = R[1];
+Obj v_2317459_25= co->res;
+Obj v_2317456_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_2317362_25, v_2317365_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_2317456_25, v_2317459_25);
 return;
 }
 case 2:
 {
-Obj v_2317363_25= co->res;
+Obj v_2317457_25= co->res;
 Obj v_a = R[1];
-Obj v_2317362_25 = R[2];
-Obj v_2317364_25 = makeCons(co->gc, v_a, Nil);
-R[1] = v_2317362_25;
-saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317363_25, v_2317364_25);
+Obj v_2317456_25 = R[2];
+Obj v_2317458_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2317456_25;
+saveCont(co, clofun39, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317457_25, v_2317458_25);
 return;
 }
 case 3:
 {
-Obj v_2317362_25= co->res;
+Obj v_2317456_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
 R[1] = v_a;
-R[2] = v_2317362_25;
-saveCont(co, clofun38, 2, R);
+R[2] = v_2317456_25;
+saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_c);
 return;
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316741_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v_2317326_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317326_25) {
-Obj v_2317327_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317328_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317327_25);
-if (True == v_2317328_25) {
-Obj v_2317329_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317330_25 = PRIM_ISCONS(v_2317329_25);
-if (True == v_2317330_25) {
-Obj v_2317331_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317332_25 = PRIM_CAR(v_2317331_25);
-Obj v_lam = v_2317332_25;
-Obj v_2317333_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317334_25 = PRIM_CDR(v_2317333_25);
-Obj v_more = v_2317334_25;
-Obj v_2317335_25 = makeCons(co->gc, v_lam, v_more);
+Obj v_2316821_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2317420_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317420_25) {
+Obj v_2317421_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317422_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317421_25);
+if (True == v_2317422_25) {
+Obj v_2317423_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317424_25 = PRIM_ISCONS(v_2317423_25);
+if (True == v_2317424_25) {
+Obj v_2317425_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317426_25 = PRIM_CAR(v_2317425_25);
+Obj v_lam = v_2317426_25;
+Obj v_2317427_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317428_25 = PRIM_CDR(v_2317427_25);
+Obj v_more = v_2317428_25;
+Obj v_2317429_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317335_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317429_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316741_25);
+coraCall0(co, v_2316821_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316741_25);
+coraCall0(co, v_2316821_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316741_25);
+coraCall0(co, v_2316821_25);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316742_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v_2317316_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317316_25) {
-Obj v_2317317_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317318_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317317_25);
-if (True == v_2317318_25) {
-Obj v_2317319_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317320_25 = PRIM_ISCONS(v_2317319_25);
-if (True == v_2317320_25) {
-Obj v_2317321_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317322_25 = PRIM_CAR(v_2317321_25);
-Obj v_x = v_2317322_25;
-Obj v_2317323_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317324_25 = PRIM_CDR(v_2317323_25);
-Obj v_2317325_25 = PRIM_EQ(Nil, v_2317324_25);
-if (True == v_2317325_25) {
+Obj v_2316822_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v_2317410_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317410_25) {
+Obj v_2317411_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317412_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317411_25);
+if (True == v_2317412_25) {
+Obj v_2317413_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317414_25 = PRIM_ISCONS(v_2317413_25);
+if (True == v_2317414_25) {
+Obj v_2317415_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317416_25 = PRIM_CAR(v_2317415_25);
+Obj v_x = v_2317416_25;
+Obj v_2317417_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317418_25 = PRIM_CDR(v_2317417_25);
+Obj v_2317419_25 = PRIM_EQ(Nil, v_2317418_25);
+if (True == v_2317419_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316742_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316742_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316742_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316742_25);
+coraCall0(co, v_2316822_25);
 return;
 }
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316743_25 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v_2317296_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317296_25) {
-Obj v_2317297_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317298_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317297_25);
-if (True == v_2317298_25) {
-Obj v_2317299_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317300_25 = PRIM_ISCONS(v_2317299_25);
-if (True == v_2317300_25) {
-Obj v_2317301_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317302_25 = PRIM_CAR(v_2317301_25);
-Obj v_exp = v_2317302_25;
-Obj v_2317303_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317304_25 = PRIM_CDR(v_2317303_25);
-Obj v_2317305_25 = PRIM_ISCONS(v_2317304_25);
-if (True == v_2317305_25) {
-Obj v_2317306_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317307_25 = PRIM_CDR(v_2317306_25);
-Obj v_2317308_25 = PRIM_CAR(v_2317307_25);
-Obj v_cont = v_2317308_25;
-Obj v_2317309_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317310_25 = PRIM_CDR(v_2317309_25);
-Obj v_2317311_25 = PRIM_CDR(v_2317310_25);
-Obj v_2317312_25 = PRIM_EQ(Nil, v_2317311_25);
-if (True == v_2317312_25) {
-Obj v_2317313_25 = makeCons(co->gc, v_cont, Nil);
-Obj v_2317314_25 = makeCons(co->gc, v_exp, v_2317313_25);
-saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317314_25);
+Obj v_2316823_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v_2317390_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317390_25) {
+Obj v_2317391_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317392_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317391_25);
+if (True == v_2317392_25) {
+Obj v_2317393_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317394_25 = PRIM_ISCONS(v_2317393_25);
+if (True == v_2317394_25) {
+Obj v_2317395_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317396_25 = PRIM_CAR(v_2317395_25);
+Obj v_exp = v_2317396_25;
+Obj v_2317397_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317398_25 = PRIM_CDR(v_2317397_25);
+Obj v_2317399_25 = PRIM_ISCONS(v_2317398_25);
+if (True == v_2317399_25) {
+Obj v_2317400_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317401_25 = PRIM_CDR(v_2317400_25);
+Obj v_2317402_25 = PRIM_CAR(v_2317401_25);
+Obj v_cont = v_2317402_25;
+Obj v_2317403_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317404_25 = PRIM_CDR(v_2317403_25);
+Obj v_2317405_25 = PRIM_CDR(v_2317404_25);
+Obj v_2317406_25 = PRIM_EQ(Nil, v_2317405_25);
+if (True == v_2317406_25) {
+Obj v_2317407_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2317408_25 = makeCons(co->gc, v_exp, v_2317407_25);
+saveCont(co, clofun36, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317408_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316743_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316743_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316743_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316743_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316743_25);
+coraCall0(co, v_2316823_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317315_25= co->res;
+Obj v_2317409_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317315_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317409_25);
 return;
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316744_25 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v_2317286_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317286_25) {
-Obj v_2317287_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317288_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317287_25);
-if (True == v_2317288_25) {
-Obj v_2317289_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317290_25 = PRIM_ISCONS(v_2317289_25);
-if (True == v_2317290_25) {
-Obj v_2317291_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317292_25 = PRIM_CAR(v_2317291_25);
-Obj v_exp = v_2317292_25;
-Obj v_2317293_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317294_25 = PRIM_CDR(v_2317293_25);
-Obj v_2317295_25 = PRIM_EQ(Nil, v_2317294_25);
-if (True == v_2317295_25) {
+Obj v_2316824_25 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v_2317380_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317380_25) {
+Obj v_2317381_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317382_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317381_25);
+if (True == v_2317382_25) {
+Obj v_2317383_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317384_25 = PRIM_ISCONS(v_2317383_25);
+if (True == v_2317384_25) {
+Obj v_2317385_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317386_25 = PRIM_CAR(v_2317385_25);
+Obj v_exp = v_2317386_25;
+Obj v_2317387_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317388_25 = PRIM_CDR(v_2317387_25);
+Obj v_2317389_25 = PRIM_EQ(Nil, v_2317388_25);
+if (True == v_2317389_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316744_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316744_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316744_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316744_25);
+coraCall0(co, v_2316824_25);
 return;
 }
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316745_25 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj v_2317268_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317268_25) {
-Obj v_2317269_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317270_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317269_25);
-if (True == v_2317270_25) {
-Obj v_2317271_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317272_25 = PRIM_ISCONS(v_2317271_25);
-if (True == v_2317272_25) {
-Obj v_2317273_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317274_25 = PRIM_CAR(v_2317273_25);
-Obj v_arg = v_2317274_25;
-Obj v_2317275_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317276_25 = PRIM_CDR(v_2317275_25);
-Obj v_2317277_25 = PRIM_ISCONS(v_2317276_25);
-if (True == v_2317277_25) {
-Obj v_2317278_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317279_25 = PRIM_CDR(v_2317278_25);
-Obj v_2317280_25 = PRIM_CAR(v_2317279_25);
-Obj v_body = v_2317280_25;
-Obj v_2317281_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317282_25 = PRIM_CDR(v_2317281_25);
-Obj v_2317283_25 = PRIM_CDR(v_2317282_25);
-Obj v_2317284_25 = PRIM_EQ(Nil, v_2317283_25);
-if (True == v_2317284_25) {
+Obj v_2316825_25 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v_2317362_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317362_25) {
+Obj v_2317363_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317364_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317363_25);
+if (True == v_2317364_25) {
+Obj v_2317365_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317366_25 = PRIM_ISCONS(v_2317365_25);
+if (True == v_2317366_25) {
+Obj v_2317367_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317368_25 = PRIM_CAR(v_2317367_25);
+Obj v_arg = v_2317368_25;
+Obj v_2317369_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317370_25 = PRIM_CDR(v_2317369_25);
+Obj v_2317371_25 = PRIM_ISCONS(v_2317370_25);
+if (True == v_2317371_25) {
+Obj v_2317372_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317373_25 = PRIM_CDR(v_2317372_25);
+Obj v_2317374_25 = PRIM_CAR(v_2317373_25);
+Obj v_body = v_2317374_25;
+Obj v_2317375_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317376_25 = PRIM_CDR(v_2317375_25);
+Obj v_2317377_25 = PRIM_CDR(v_2317376_25);
+Obj v_2317378_25 = PRIM_EQ(Nil, v_2317377_25);
+if (True == v_2317378_25) {
 R[1] = v_arg;
-saveCont(co, clofun33, 1, R);
+saveCont(co, clofun34, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316745_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316745_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316745_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316745_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316745_25);
+coraCall0(co, v_2316825_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317285_25= co->res;
+Obj v_2317379_25= co->res;
 Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317285_25, v_arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317379_25, v_arg);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317263_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317263_25) {
-Obj v_2317264_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317264_25;
-Obj v_2317265_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317265_25;
-Obj v_2317266_25 = makeCons(co->gc, v_f, v_args);
-saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 77)), v_2317266_25);
+Obj v_2317357_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317357_25) {
+Obj v_2317358_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2317358_25;
+Obj v_2317359_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317359_25;
+Obj v_2317360_25 = makeCons(co->gc, v_f, v_args);
+saveCont(co, clofun33, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317360_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317267_25= co->res;
+Obj v_2317361_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317267_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317361_25);
 return;
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316726_25 = R[1];
-Obj v_2316727_25 = makeNative(co->gc, 1, clofun30, 0, 1, v_2316726_25);
-Obj v_2317249_25 = PRIM_ISCONS(v_2316726_25);
-if (True == v_2317249_25) {
-Obj v_2317250_25 = PRIM_CAR(v_2316726_25);
-Obj v_2317251_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2317250_25);
-if (True == v_2317251_25) {
-Obj v_2317252_25 = PRIM_CDR(v_2316726_25);
-Obj v_2317253_25 = PRIM_ISCONS(v_2317252_25);
-if (True == v_2317253_25) {
-Obj v_2317254_25 = PRIM_CDR(v_2316726_25);
-Obj v_2317255_25 = PRIM_CAR(v_2317254_25);
-Obj v_2317256_25 = PRIM_CDR(v_2316726_25);
-Obj v_2317257_25 = PRIM_CDR(v_2317256_25);
-Obj v_2317258_25 = PRIM_EQ(Nil, v_2317257_25);
-if (True == v_2317258_25) {
+Obj v_2316806_25 = R[1];
+Obj v_2316807_25 = makeNative(co->gc, 1, clofun31, 0, 1, v_2316806_25);
+Obj v_2317343_25 = PRIM_ISCONS(v_2316806_25);
+if (True == v_2317343_25) {
+Obj v_2317344_25 = PRIM_CAR(v_2316806_25);
+Obj v_2317345_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2317344_25);
+if (True == v_2317345_25) {
+Obj v_2317346_25 = PRIM_CDR(v_2316806_25);
+Obj v_2317347_25 = PRIM_ISCONS(v_2317346_25);
+if (True == v_2317347_25) {
+Obj v_2317348_25 = PRIM_CDR(v_2316806_25);
+Obj v_2317349_25 = PRIM_CAR(v_2317348_25);
+Obj v_2317350_25 = PRIM_CDR(v_2316806_25);
+Obj v_2317351_25 = PRIM_CDR(v_2317350_25);
+Obj v_2317352_25 = PRIM_EQ(Nil, v_2317351_25);
+if (True == v_2317352_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316807_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316807_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316807_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316727_25);
+coraCall0(co, v_2316807_25);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316728_25 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v_2317239_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317239_25) {
-Obj v_2317240_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317241_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2317240_25);
-if (True == v_2317241_25) {
-Obj v_2317242_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317243_25 = PRIM_ISCONS(v_2317242_25);
-if (True == v_2317243_25) {
-Obj v_2317244_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317245_25 = PRIM_CAR(v_2317244_25);
-Obj v_2317246_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317247_25 = PRIM_CDR(v_2317246_25);
-Obj v_2317248_25 = PRIM_EQ(Nil, v_2317247_25);
-if (True == v_2317248_25) {
+Obj v_2316808_25 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v_2317333_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317333_25) {
+Obj v_2317334_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317335_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2317334_25);
+if (True == v_2317335_25) {
+Obj v_2317336_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317337_25 = PRIM_ISCONS(v_2317336_25);
+if (True == v_2317337_25) {
+Obj v_2317338_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317339_25 = PRIM_CAR(v_2317338_25);
+Obj v_2317340_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317341_25 = PRIM_CDR(v_2317340_25);
+Obj v_2317342_25 = PRIM_EQ(Nil, v_2317341_25);
+if (True == v_2317342_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316808_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316808_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316808_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316728_25);
+coraCall0(co, v_2316808_25);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316729_25 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v_2317229_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317229_25) {
-Obj v_2317230_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317231_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2317230_25);
-if (True == v_2317231_25) {
-Obj v_2317232_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317233_25 = PRIM_ISCONS(v_2317232_25);
-if (True == v_2317233_25) {
-Obj v_2317234_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317235_25 = PRIM_CAR(v_2317234_25);
-Obj v_2317236_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317237_25 = PRIM_CDR(v_2317236_25);
-Obj v_2317238_25 = PRIM_EQ(Nil, v_2317237_25);
-if (True == v_2317238_25) {
+Obj v_2316809_25 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v_2317323_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317323_25) {
+Obj v_2317324_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317325_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2317324_25);
+if (True == v_2317325_25) {
+Obj v_2317326_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317327_25 = PRIM_ISCONS(v_2317326_25);
+if (True == v_2317327_25) {
+Obj v_2317328_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317329_25 = PRIM_CAR(v_2317328_25);
+Obj v_2317330_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317331_25 = PRIM_CDR(v_2317330_25);
+Obj v_2317332_25 = PRIM_EQ(Nil, v_2317331_25);
+if (True == v_2317332_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316809_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316809_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316809_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316729_25);
+coraCall0(co, v_2316809_25);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316730_25 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj v_2317219_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317219_25) {
-Obj v_2317220_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317221_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317220_25);
-if (True == v_2317221_25) {
-Obj v_2317222_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317223_25 = PRIM_ISCONS(v_2317222_25);
-if (True == v_2317223_25) {
-Obj v_2317224_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317225_25 = PRIM_CAR(v_2317224_25);
-Obj v_2317226_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317227_25 = PRIM_CDR(v_2317226_25);
-Obj v_2317228_25 = PRIM_EQ(Nil, v_2317227_25);
-if (True == v_2317228_25) {
+Obj v_2316810_25 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v_2317313_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317313_25) {
+Obj v_2317314_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317315_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317314_25);
+if (True == v_2317315_25) {
+Obj v_2317316_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317317_25 = PRIM_ISCONS(v_2317316_25);
+if (True == v_2317317_25) {
+Obj v_2317318_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317319_25 = PRIM_CAR(v_2317318_25);
+Obj v_2317320_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317321_25 = PRIM_CDR(v_2317320_25);
+Obj v_2317322_25 = PRIM_EQ(Nil, v_2317321_25);
+if (True == v_2317322_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316730_25);
+coraCall0(co, v_2316810_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316730_25);
+coraCall0(co, v_2316810_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316730_25);
+coraCall0(co, v_2316810_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316730_25);
+coraCall0(co, v_2316810_25);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316731_25 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj v_2317209_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317209_25) {
-Obj v_2317210_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317211_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317210_25);
-if (True == v_2317211_25) {
-Obj v_2317212_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317213_25 = PRIM_ISCONS(v_2317212_25);
-if (True == v_2317213_25) {
-Obj v_2317214_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317215_25 = PRIM_CAR(v_2317214_25);
-Obj v_2317216_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317217_25 = PRIM_CDR(v_2317216_25);
-Obj v_2317218_25 = PRIM_EQ(Nil, v_2317217_25);
-if (True == v_2317218_25) {
+Obj v_2316811_25 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
+Obj v_2317303_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317303_25) {
+Obj v_2317304_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317305_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317304_25);
+if (True == v_2317305_25) {
+Obj v_2317306_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317307_25 = PRIM_ISCONS(v_2317306_25);
+if (True == v_2317307_25) {
+Obj v_2317308_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317309_25 = PRIM_CAR(v_2317308_25);
+Obj v_2317310_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317311_25 = PRIM_CDR(v_2317310_25);
+Obj v_2317312_25 = PRIM_EQ(Nil, v_2317311_25);
+if (True == v_2317312_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316731_25);
+coraCall0(co, v_2316811_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316731_25);
+coraCall0(co, v_2316811_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316731_25);
+coraCall0(co, v_2316811_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316731_25);
+coraCall0(co, v_2316811_25);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316732_25 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj v_2317199_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317199_25) {
-Obj v_2317200_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317201_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317200_25);
-if (True == v_2317201_25) {
-Obj v_2317202_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317203_25 = PRIM_ISCONS(v_2317202_25);
-if (True == v_2317203_25) {
-Obj v_2317204_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317205_25 = PRIM_CAR(v_2317204_25);
-Obj v_label = v_2317205_25;
-Obj v_2317206_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317207_25 = PRIM_CDR(v_2317206_25);
-R[1] = v_2316732_25;
-saveCont(co, clofun26, 1, R);
+Obj v_2316812_25 = makeNative(co->gc, 1, clofun26, 0, 0);
+Obj v_2317293_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317293_25) {
+Obj v_2317294_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317295_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317294_25);
+if (True == v_2317295_25) {
+Obj v_2317296_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317297_25 = PRIM_ISCONS(v_2317296_25);
+if (True == v_2317297_25) {
+Obj v_2317298_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317299_25 = PRIM_CAR(v_2317298_25);
+Obj v_label = v_2317299_25;
+Obj v_2317300_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317301_25 = PRIM_CDR(v_2317300_25);
+R[1] = v_2316812_25;
+saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316732_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316732_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316732_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317208_25= co->res;
-Obj v_2316732_25 = R[1];
-if (True == v_2317208_25) {
+Obj v_2317302_25= co->res;
+Obj v_2316812_25 = R[1];
+if (True == v_2317302_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316732_25);
+coraCall0(co, v_2316812_25);
 return;
 }
 }
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7566,232 +7569,232 @@ return;
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316721_25 = R[1];
-Obj v_2316722_25 = R[2];
-Obj v_2317188_25 = PRIM_EQ(Nil, v_2316721_25);
-if (True == v_2317188_25) {
+Obj v_2316801_25 = R[1];
+Obj v_2316802_25 = R[2];
+Obj v_2317282_25 = PRIM_EQ(Nil, v_2316801_25);
+if (True == v_2317282_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2316724_25 = makeNative(co->gc, 2, clofun23, 0, 2, v_2316721_25, v_2316722_25);
-Obj v_2317194_25 = PRIM_ISCONS(v_2316721_25);
-if (True == v_2317194_25) {
-Obj v_2317195_25 = PRIM_CAR(v_2316721_25);
-Obj v_x = v_2317195_25;
-Obj v_2317196_25 = PRIM_CDR(v_2316721_25);
-Obj v_y = v_2317196_25;
+Obj v_2316804_25 = makeNative(co->gc, 2, clofun24, 0, 2, v_2316801_25, v_2316802_25);
+Obj v_2317288_25 = PRIM_ISCONS(v_2316801_25);
+if (True == v_2317288_25) {
+Obj v_2317289_25 = PRIM_CAR(v_2316801_25);
+Obj v_x = v_2317289_25;
+Obj v_2317290_25 = PRIM_CDR(v_2316801_25);
+Obj v_y = v_2317290_25;
 R[1] = v_y;
-R[2] = v_2316722_25;
-R[3] = v_2316724_25;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v_x, v_2316722_25);
+R[2] = v_2316802_25;
+R[3] = v_2316804_25;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_x, v_2316802_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316804_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317197_25= co->res;
+Obj v_2317291_25= co->res;
 Obj v_y = R[1];
-Obj v_2316722_25 = R[2];
-Obj v_2316724_25 = R[3];
-if (True == v_2317197_25) {
+Obj v_2316802_25 = R[2];
+Obj v_2316804_25 = R[3];
+if (True == v_2317291_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, v_2316722_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, v_2316802_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316724_25);
+coraCall0(co, v_2316804_25);
 return;
 }
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317189_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317189_25) {
-Obj v_2317190_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317190_25;
-Obj v_2317191_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317191_25;
+Obj v_2317283_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317283_25) {
+Obj v_2317284_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317284_25;
+Obj v_2317285_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317285_25;
 R[1] = v_x;
-saveCont(co, clofun23, 1, R);
+saveCont(co, clofun24, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317192_25= co->res;
+Obj v_2317286_25= co->res;
 Obj v_x = R[1];
-Obj v_2317193_25 = makeCons(co->gc, v_x, v_2317192_25);
-coraReturn(co, v_2317193_25);
+Obj v_2317287_25 = makeCons(co->gc, v_x, v_2317286_25);
+coraReturn(co, v_2317287_25);
 return;
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316716_25 = R[1];
-Obj v_2316717_25 = R[2];
-Obj v_2317177_25 = PRIM_EQ(Nil, v_2316716_25);
-if (True == v_2317177_25) {
-coraReturn(co, v_2316717_25);
+Obj v_2316796_25 = R[1];
+Obj v_2316797_25 = R[2];
+Obj v_2317271_25 = PRIM_EQ(Nil, v_2316796_25);
+if (True == v_2317271_25) {
+coraReturn(co, v_2316797_25);
 return;
 } else {
-Obj v_2316719_25 = makeNative(co->gc, 2, clofun21, 0, 2, v_2316716_25, v_2316717_25);
-Obj v_2317183_25 = PRIM_ISCONS(v_2316716_25);
-if (True == v_2317183_25) {
-Obj v_2317184_25 = PRIM_CAR(v_2316716_25);
-Obj v_x = v_2317184_25;
-Obj v_2317185_25 = PRIM_CDR(v_2316716_25);
-Obj v_y = v_2317185_25;
+Obj v_2316799_25 = makeNative(co->gc, 2, clofun22, 0, 2, v_2316796_25, v_2316797_25);
+Obj v_2317277_25 = PRIM_ISCONS(v_2316796_25);
+if (True == v_2317277_25) {
+Obj v_2317278_25 = PRIM_CAR(v_2316796_25);
+Obj v_x = v_2317278_25;
+Obj v_2317279_25 = PRIM_CDR(v_2316796_25);
+Obj v_y = v_2317279_25;
 R[1] = v_y;
-R[2] = v_2316717_25;
-R[3] = v_2316719_25;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v_x, v_2316717_25);
+R[2] = v_2316797_25;
+R[3] = v_2316799_25;
+saveCont(co, clofun23, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_x, v_2316797_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316719_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317186_25= co->res;
+Obj v_2317280_25= co->res;
 Obj v_y = R[1];
-Obj v_2316717_25 = R[2];
-Obj v_2316719_25 = R[3];
-if (True == v_2317186_25) {
+Obj v_2316797_25 = R[2];
+Obj v_2316799_25 = R[3];
+if (True == v_2317280_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, v_2316717_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, v_2316797_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316719_25);
+coraCall0(co, v_2316799_25);
 return;
 }
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317178_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317178_25) {
-Obj v_2317179_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317179_25;
-Obj v_2317180_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317180_25;
+Obj v_2317272_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317272_25) {
+Obj v_2317273_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317273_25;
+Obj v_2317274_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317274_25;
 R[1] = v_x;
-saveCont(co, clofun21, 1, R);
+saveCont(co, clofun22, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317181_25= co->res;
+Obj v_2317275_25= co->res;
 Obj v_x = R[1];
-Obj v_2317182_25 = makeCons(co->gc, v_x, v_2317181_25);
-coraReturn(co, v_2317182_25);
+Obj v_2317276_25 = makeCons(co->gc, v_x, v_2317275_25);
+coraReturn(co, v_2317276_25);
 return;
 }
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316702_25 = R[1];
-Obj v_2316703_25 = R[2];
-Obj v_2316704_25 = R[3];
-Obj v_2316846_25 = makeNative(co->gc, 2, clofun19, 1, 3, v_2316702_25, v_2316704_25, v_2316703_25);
-R[1] = v_2316704_25;
-R[2] = v_2316846_25;
-saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_2316704_25);
+Obj v_2316782_25 = R[1];
+Obj v_2316783_25 = R[2];
+Obj v_2316784_25 = R[3];
+Obj v_2316926_25 = makeNative(co->gc, 2, clofun20, 1, 3, v_2316782_25, v_2316784_25, v_2316783_25);
+R[1] = v_2316784_25;
+R[2] = v_2316926_25;
+saveCont(co, clofun21, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_2316784_25);
 return;
 }
 case 1:
 {
-Obj v_2317175_25= co->res;
-Obj v_2316846_25 = R[1];
-if (True == v_2317175_25) {
+Obj v_2317269_25= co->res;
+Obj v_2316926_25 = R[1];
+if (True == v_2317269_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316846_25, True);
+coraCall1(co, v_2316926_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316846_25, False);
+coraCall1(co, v_2316926_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317174_25= co->res;
-Obj v_2316704_25 = R[1];
-Obj v_2316846_25 = R[2];
-if (True == v_2317174_25) {
+Obj v_2317268_25= co->res;
+Obj v_2316784_25 = R[1];
+Obj v_2316926_25 = R[2];
+if (True == v_2317268_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316846_25, True);
+coraCall1(co, v_2316926_25, True);
 return;
 } else {
-R[1] = v_2316846_25;
-saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2316704_25);
+R[1] = v_2316926_25;
+saveCont(co, clofun21, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_2316784_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2317172_25= co->res;
-Obj v_2316704_25 = R[1];
-Obj v_2316846_25 = R[2];
-if (True == v_2317172_25) {
+Obj v_2317266_25= co->res;
+Obj v_2316784_25 = R[1];
+Obj v_2316926_25 = R[2];
+if (True == v_2317266_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316846_25, True);
+coraCall1(co, v_2316926_25, True);
 return;
 } else {
-Obj v_2317173_25 = primIsString(v_2316704_25);
-if (True == v_2317173_25) {
+Obj v_2317267_25 = primIsString(v_2316784_25);
+if (True == v_2317267_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316846_25, True);
+coraCall1(co, v_2316926_25, True);
 return;
 } else {
-R[1] = v_2316704_25;
-R[2] = v_2316846_25;
-saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2316704_25);
+R[1] = v_2316784_25;
+R[2] = v_2316926_25;
+saveCont(co, clofun21, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2316784_25);
 return;
 }
 }
@@ -7799,720 +7802,780 @@ return;
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316847_25 = R[1];
-if (True == v_2316847_25) {
-Obj v_2316983_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v_2316984_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2316983_25);
-coraReturn(co, v_2316984_25);
-return;
-} else {
-Obj v_2316706_25 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v_2317159_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317159_25) {
-Obj v_2317160_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317161_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317160_25);
-if (True == v_2317161_25) {
-Obj v_2317162_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317163_25 = PRIM_ISCONS(v_2317162_25);
-if (True == v_2317163_25) {
-Obj v_2317164_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317165_25 = PRIM_CAR(v_2317164_25);
-Obj v_x = v_2317165_25;
-Obj v_2317166_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317167_25 = PRIM_CDR(v_2317166_25);
-Obj v_2317168_25 = PRIM_EQ(Nil, v_2317167_25);
-if (True == v_2317168_25) {
-R[1] = v_x;
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v_x, closureRef(R[0], 2));
+Obj v_2316927_25 = R[1];
+if (True == v_2316927_25) {
+Obj v_2317080_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2317081_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317080_25);
+coraReturn(co, v_2317081_25);
 return;
 } else {
+Obj v_2316786_25 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v_2317256_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317256_25) {
+Obj v_2317257_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2317258_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317257_25);
+if (True == v_2317258_25) {
+Obj v_2317259_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317260_25 = PRIM_ISCONS(v_2317259_25);
+if (True == v_2317260_25) {
+Obj v_2317261_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317262_25 = PRIM_CAR(v_2317261_25);
+Obj v_x = v_2317262_25;
+Obj v_2317263_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2317264_25 = PRIM_CDR(v_2317263_25);
+Obj v_2317265_25 = PRIM_EQ(Nil, v_2317264_25);
+if (True == v_2317265_25) {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_x, closureRef(R[0], 2));
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2316786_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316786_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316786_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316706_25);
+coraCall0(co, v_2316786_25);
 return;
 }
 }
 }
-case 1:
-{
-Obj v_2317169_25= co->res;
-Obj v_x = R[1];
-Obj v_2317170_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2317171_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317170_25);
-coraReturn(co, v_2317171_25);
-return;
-}
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316985_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2316985_25) {
-saveCont(co, clofun18, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj v_2316708_25 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317137_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317137_25) {
-Obj v_2317138_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317139_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317138_25);
-if (True == v_2317139_25) {
-Obj v_2317140_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317141_25 = PRIM_ISCONS(v_2317140_25);
-if (True == v_2317141_25) {
-Obj v_2317142_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317143_25 = PRIM_CAR(v_2317142_25);
-Obj v_args = v_2317143_25;
-Obj v_2317144_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317145_25 = PRIM_CDR(v_2317144_25);
-Obj v_2317146_25 = PRIM_ISCONS(v_2317145_25);
-if (True == v_2317146_25) {
-Obj v_2317147_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317148_25 = PRIM_CDR(v_2317147_25);
-Obj v_2317149_25 = PRIM_CAR(v_2317148_25);
-Obj v_body = v_2317149_25;
-Obj v_2317150_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317151_25 = PRIM_CDR(v_2317150_25);
-Obj v_2317152_25 = PRIM_CDR(v_2317151_25);
-Obj v_2317153_25 = PRIM_EQ(Nil, v_2317152_25);
-if (True == v_2317153_25) {
+Obj v_2317082_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2317082_25) {
+saveCont(co, clofun19, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj v_2316788_25 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317234_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317234_25) {
+Obj v_2317235_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317236_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317235_25);
+if (True == v_2317236_25) {
+Obj v_2317237_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317238_25 = PRIM_ISCONS(v_2317237_25);
+if (True == v_2317238_25) {
+Obj v_2317239_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317240_25 = PRIM_CAR(v_2317239_25);
+Obj v_args = v_2317240_25;
+Obj v_2317241_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317242_25 = PRIM_CDR(v_2317241_25);
+Obj v_2317243_25 = PRIM_ISCONS(v_2317242_25);
+if (True == v_2317243_25) {
+Obj v_2317244_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317245_25 = PRIM_CDR(v_2317244_25);
+Obj v_2317246_25 = PRIM_CAR(v_2317245_25);
+Obj v_body = v_2317246_25;
+Obj v_2317247_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317248_25 = PRIM_CDR(v_2317247_25);
+Obj v_2317249_25 = PRIM_CDR(v_2317248_25);
+Obj v_2317250_25 = PRIM_EQ(Nil, v_2317249_25);
+if (True == v_2317250_25) {
 R[1] = v_body;
 R[2] = v_args;
-saveCont(co, clofun18, 4, R);
+saveCont(co, clofun19, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316708_25);
+coraCall0(co, v_2316788_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316708_25);
+coraCall0(co, v_2316788_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316708_25);
+coraCall0(co, v_2316788_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316708_25);
+coraCall0(co, v_2316788_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316708_25);
+coraCall0(co, v_2316788_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316987_25= co->res;
-Obj v_2316988_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2316989_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2316988_25);
-coraReturn(co, v_2316989_25);
+Obj v_2317084_25= co->res;
+Obj v_2317085_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2317086_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317085_25);
+coraReturn(co, v_2317086_25);
 return;
 }
 case 2:
 {
-Obj v_2316986_25= co->res;
-if (True == v_2316986_25) {
+Obj v_2317083_25= co->res;
+if (True == v_2317083_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
+saveCont(co, clofun19, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 }
 case 3:
 {
-Obj v_2317155_25= co->res;
+Obj v_2317252_25= co->res;
 Obj v_args = R[1];
-Obj v_2317156_25 = makeCons(co->gc, v_2317155_25, Nil);
-Obj v_2317157_25 = makeCons(co->gc, v_args, v_2317156_25);
-Obj v_2317158_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317157_25);
-coraReturn(co, v_2317158_25);
+Obj v_2317253_25 = makeCons(co->gc, v_2317252_25, Nil);
+Obj v_2317254_25 = makeCons(co->gc, v_args, v_2317253_25);
+Obj v_2317255_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317254_25);
+coraReturn(co, v_2317255_25);
 return;
 }
 case 4:
 {
-Obj v_2317154_25= co->res;
+Obj v_2317251_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
-saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v_2317154_25, closureRef(R[0], 2), v_body);
+saveCont(co, clofun19, 3, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), v_2317251_25, closureRef(R[0], 2), v_body);
 return;
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316709_25 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317105_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317105_25) {
-Obj v_2317106_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317107_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317106_25);
-if (True == v_2317107_25) {
-Obj v_2317108_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317109_25 = PRIM_ISCONS(v_2317108_25);
-if (True == v_2317109_25) {
-Obj v_2317110_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317111_25 = PRIM_CAR(v_2317110_25);
-Obj v_2317112_25 = PRIM_ISCONS(v_2317111_25);
-if (True == v_2317112_25) {
-Obj v_2317113_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317114_25 = PRIM_CAR(v_2317113_25);
-Obj v_2317115_25 = PRIM_CAR(v_2317114_25);
-Obj v_2317116_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317115_25);
-if (True == v_2317116_25) {
-Obj v_2317117_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317118_25 = PRIM_CAR(v_2317117_25);
-Obj v_2317119_25 = PRIM_CDR(v_2317118_25);
-Obj v_exp1 = v_2317119_25;
-Obj v_2317120_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317121_25 = PRIM_CDR(v_2317120_25);
-Obj v_exp2 = v_2317121_25;
-Obj v_2317122_25 = primGenSym(co);
-Obj v_f = v_2317122_25;
-Obj v_2317123_25 = primGenSym(co);
-Obj v_v = v_2317123_25;
-Obj v_2317124_25 = makeCons(co->gc, v_v, Nil);
-Obj v_2317125_25 = makeCons(co->gc, v_v, v_exp2);
-Obj v_2317126_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317125_25);
-Obj v_2317127_25 = makeCons(co->gc, v_2317126_25, Nil);
-Obj v_2317128_25 = makeCons(co->gc, v_2317124_25, v_2317127_25);
-Obj v_2317129_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317128_25);
-Obj v_2317130_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp1);
-Obj v_2317131_25 = makeCons(co->gc, v_2317130_25, Nil);
-Obj v_2317132_25 = makeCons(co->gc, v_f, v_2317131_25);
-Obj v_2317133_25 = makeCons(co->gc, v_2317132_25, Nil);
-Obj v_2317134_25 = makeCons(co->gc, v_2317129_25, v_2317133_25);
-Obj v_2317135_25 = makeCons(co->gc, v_f, v_2317134_25);
-Obj v_2317136_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317135_25);
+Obj v_2316789_25 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317202_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317202_25) {
+Obj v_2317203_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317204_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317203_25);
+if (True == v_2317204_25) {
+Obj v_2317205_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317206_25 = PRIM_ISCONS(v_2317205_25);
+if (True == v_2317206_25) {
+Obj v_2317207_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317208_25 = PRIM_CAR(v_2317207_25);
+Obj v_2317209_25 = PRIM_ISCONS(v_2317208_25);
+if (True == v_2317209_25) {
+Obj v_2317210_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317211_25 = PRIM_CAR(v_2317210_25);
+Obj v_2317212_25 = PRIM_CAR(v_2317211_25);
+Obj v_2317213_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317212_25);
+if (True == v_2317213_25) {
+Obj v_2317214_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317215_25 = PRIM_CAR(v_2317214_25);
+Obj v_2317216_25 = PRIM_CDR(v_2317215_25);
+Obj v_exp1 = v_2317216_25;
+Obj v_2317217_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317218_25 = PRIM_CDR(v_2317217_25);
+Obj v_exp2 = v_2317218_25;
+Obj v_2317219_25 = primGenSym(co);
+Obj v_f = v_2317219_25;
+Obj v_2317220_25 = primGenSym(co);
+Obj v_v = v_2317220_25;
+Obj v_2317221_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2317222_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2317223_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317222_25);
+Obj v_2317224_25 = makeCons(co->gc, v_2317223_25, Nil);
+Obj v_2317225_25 = makeCons(co->gc, v_2317221_25, v_2317224_25);
+Obj v_2317226_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317225_25);
+Obj v_2317227_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp1);
+Obj v_2317228_25 = makeCons(co->gc, v_2317227_25, Nil);
+Obj v_2317229_25 = makeCons(co->gc, v_f, v_2317228_25);
+Obj v_2317230_25 = makeCons(co->gc, v_2317229_25, Nil);
+Obj v_2317231_25 = makeCons(co->gc, v_2317226_25, v_2317230_25);
+Obj v_2317232_25 = makeCons(co->gc, v_f, v_2317231_25);
+Obj v_2317233_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317232_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317136_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317233_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316709_25);
+coraCall0(co, v_2316789_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316709_25);
+coraCall0(co, v_2316789_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316709_25);
+coraCall0(co, v_2316789_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316709_25);
+coraCall0(co, v_2316789_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316709_25);
+coraCall0(co, v_2316789_25);
 return;
 }
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316710_25 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317098_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317098_25) {
-Obj v_2317099_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317100_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317099_25);
-if (True == v_2317100_25) {
-Obj v_2317101_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317101_25;
+Obj v_2316790_25 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317195_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317195_25) {
+Obj v_2317196_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317197_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317196_25);
+if (True == v_2317197_25) {
+Obj v_2317198_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317198_25;
 R[1] = v_args;
-saveCont(co, clofun16, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
+saveCont(co, clofun17, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316710_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316710_25);
+coraCall0(co, v_2316790_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317103_25= co->res;
-Obj v_2317104_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317103_25);
-coraReturn(co, v_2317104_25);
+Obj v_2317200_25= co->res;
+Obj v_2317201_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317200_25);
+coraReturn(co, v_2317201_25);
 return;
 }
 case 2:
 {
-Obj v_2317102_25= co->res;
+Obj v_2317199_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317102_25, v_args);
+saveCont(co, clofun17, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317199_25, v_args);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316711_25 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317076_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317076_25) {
-Obj v_2317077_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317078_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317077_25);
-if (True == v_2317078_25) {
-Obj v_2317079_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317080_25 = PRIM_ISCONS(v_2317079_25);
-if (True == v_2317080_25) {
-Obj v_2317081_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317082_25 = PRIM_CAR(v_2317081_25);
-Obj v_x = v_2317082_25;
-Obj v_2317083_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317084_25 = PRIM_CDR(v_2317083_25);
-Obj v_2317085_25 = PRIM_ISCONS(v_2317084_25);
-if (True == v_2317085_25) {
-Obj v_2317086_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317087_25 = PRIM_CDR(v_2317086_25);
-Obj v_2317088_25 = PRIM_CAR(v_2317087_25);
-Obj v_y = v_2317088_25;
-Obj v_2317089_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317090_25 = PRIM_CDR(v_2317089_25);
-Obj v_2317091_25 = PRIM_CDR(v_2317090_25);
-Obj v_2317092_25 = PRIM_EQ(Nil, v_2317091_25);
-if (True == v_2317092_25) {
+Obj v_2316791_25 = makeNative(co->gc, 3, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317173_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317173_25) {
+Obj v_2317174_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317175_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317174_25);
+if (True == v_2317175_25) {
+Obj v_2317176_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317177_25 = PRIM_ISCONS(v_2317176_25);
+if (True == v_2317177_25) {
+Obj v_2317178_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317179_25 = PRIM_CAR(v_2317178_25);
+Obj v_x = v_2317179_25;
+Obj v_2317180_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317181_25 = PRIM_CDR(v_2317180_25);
+Obj v_2317182_25 = PRIM_ISCONS(v_2317181_25);
+if (True == v_2317182_25) {
+Obj v_2317183_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317184_25 = PRIM_CDR(v_2317183_25);
+Obj v_2317185_25 = PRIM_CAR(v_2317184_25);
+Obj v_y = v_2317185_25;
+Obj v_2317186_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317187_25 = PRIM_CDR(v_2317186_25);
+Obj v_2317188_25 = PRIM_CDR(v_2317187_25);
+Obj v_2317189_25 = PRIM_EQ(Nil, v_2317188_25);
+if (True == v_2317189_25) {
 R[1] = v_y;
-saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_x);
+saveCont(co, clofun16, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316711_25);
+coraCall0(co, v_2316791_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316711_25);
+coraCall0(co, v_2316791_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316711_25);
+coraCall0(co, v_2316791_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316711_25);
+coraCall0(co, v_2316791_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316711_25);
+coraCall0(co, v_2316791_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317094_25= co->res;
-Obj v_2317093_25 = R[1];
-Obj v_2317095_25 = makeCons(co->gc, v_2317094_25, Nil);
-Obj v_2317096_25 = makeCons(co->gc, v_2317093_25, v_2317095_25);
-Obj v_2317097_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317096_25);
-coraReturn(co, v_2317097_25);
+Obj v_2317191_25= co->res;
+Obj v_2317190_25 = R[1];
+Obj v_2317192_25 = makeCons(co->gc, v_2317191_25, Nil);
+Obj v_2317193_25 = makeCons(co->gc, v_2317190_25, v_2317192_25);
+Obj v_2317194_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317193_25);
+coraReturn(co, v_2317194_25);
 return;
 }
 case 2:
 {
-Obj v_2317093_25= co->res;
+Obj v_2317190_25= co->res;
 Obj v_y = R[1];
-R[1] = v_2317093_25;
-saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_y);
+R[1] = v_2317190_25;
+saveCont(co, clofun16, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_y);
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316712_25 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317043_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317043_25) {
-Obj v_2317044_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317045_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317044_25);
-if (True == v_2317045_25) {
-Obj v_2317046_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317047_25 = PRIM_ISCONS(v_2317046_25);
-if (True == v_2317047_25) {
-Obj v_2317048_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317049_25 = PRIM_CAR(v_2317048_25);
-Obj v_a = v_2317049_25;
-Obj v_2317050_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317051_25 = PRIM_CDR(v_2317050_25);
-Obj v_2317052_25 = PRIM_ISCONS(v_2317051_25);
-if (True == v_2317052_25) {
-Obj v_2317053_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317054_25 = PRIM_CDR(v_2317053_25);
-Obj v_2317055_25 = PRIM_CAR(v_2317054_25);
-Obj v_b = v_2317055_25;
-Obj v_2317056_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317057_25 = PRIM_CDR(v_2317056_25);
-Obj v_2317058_25 = PRIM_CDR(v_2317057_25);
-Obj v_2317059_25 = PRIM_ISCONS(v_2317058_25);
-if (True == v_2317059_25) {
-Obj v_2317060_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317061_25 = PRIM_CDR(v_2317060_25);
-Obj v_2317062_25 = PRIM_CDR(v_2317061_25);
-Obj v_2317063_25 = PRIM_CAR(v_2317062_25);
-Obj v_c = v_2317063_25;
-Obj v_2317064_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317065_25 = PRIM_CDR(v_2317064_25);
-Obj v_2317066_25 = PRIM_CDR(v_2317065_25);
-Obj v_2317067_25 = PRIM_CDR(v_2317066_25);
-Obj v_2317068_25 = PRIM_EQ(Nil, v_2317067_25);
-if (True == v_2317068_25) {
+Obj v_2316792_25 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317140_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317140_25) {
+Obj v_2317141_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317142_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317141_25);
+if (True == v_2317142_25) {
+Obj v_2317143_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317144_25 = PRIM_ISCONS(v_2317143_25);
+if (True == v_2317144_25) {
+Obj v_2317145_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317146_25 = PRIM_CAR(v_2317145_25);
+Obj v_a = v_2317146_25;
+Obj v_2317147_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317148_25 = PRIM_CDR(v_2317147_25);
+Obj v_2317149_25 = PRIM_ISCONS(v_2317148_25);
+if (True == v_2317149_25) {
+Obj v_2317150_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317151_25 = PRIM_CDR(v_2317150_25);
+Obj v_2317152_25 = PRIM_CAR(v_2317151_25);
+Obj v_b = v_2317152_25;
+Obj v_2317153_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317154_25 = PRIM_CDR(v_2317153_25);
+Obj v_2317155_25 = PRIM_CDR(v_2317154_25);
+Obj v_2317156_25 = PRIM_ISCONS(v_2317155_25);
+if (True == v_2317156_25) {
+Obj v_2317157_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317158_25 = PRIM_CDR(v_2317157_25);
+Obj v_2317159_25 = PRIM_CDR(v_2317158_25);
+Obj v_2317160_25 = PRIM_CAR(v_2317159_25);
+Obj v_c = v_2317160_25;
+Obj v_2317161_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317162_25 = PRIM_CDR(v_2317161_25);
+Obj v_2317163_25 = PRIM_CDR(v_2317162_25);
+Obj v_2317164_25 = PRIM_CDR(v_2317163_25);
+Obj v_2317165_25 = PRIM_EQ(Nil, v_2317164_25);
+if (True == v_2317165_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_b);
+saveCont(co, clofun15, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316712_25);
+coraCall0(co, v_2316792_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316712_25);
+coraCall0(co, v_2316792_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316712_25);
+coraCall0(co, v_2316792_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316712_25);
+coraCall0(co, v_2316792_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316712_25);
+coraCall0(co, v_2316792_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316712_25);
+coraCall0(co, v_2316792_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317071_25= co->res;
-Obj v_2317069_25 = R[1];
+Obj v_2317168_25= co->res;
+Obj v_2317166_25 = R[1];
 Obj v_a = R[2];
-Obj v_2317072_25 = makeCons(co->gc, v_2317071_25, Nil);
-Obj v_2317073_25 = makeCons(co->gc, v_2317069_25, v_2317072_25);
-Obj v_2317074_25 = makeCons(co->gc, v_a, v_2317073_25);
-Obj v_2317075_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317074_25);
-coraReturn(co, v_2317075_25);
+Obj v_2317169_25 = makeCons(co->gc, v_2317168_25, Nil);
+Obj v_2317170_25 = makeCons(co->gc, v_2317166_25, v_2317169_25);
+Obj v_2317171_25 = makeCons(co->gc, v_a, v_2317170_25);
+Obj v_2317172_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317171_25);
+coraReturn(co, v_2317172_25);
 return;
 }
 case 2:
 {
-Obj v_2317069_25= co->res;
+Obj v_2317166_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2317070_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2317069_25;
+Obj v_2317167_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2317166_25;
 R[2] = v_a;
-saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v_2317070_25, closureRef(R[0], 2), v_c);
+saveCont(co, clofun15, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), v_2317167_25, closureRef(R[0], 2), v_c);
 return;
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316713_25 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317011_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317011_25) {
-Obj v_2317012_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317013_25 = PRIM_ISCONS(v_2317012_25);
-if (True == v_2317013_25) {
-Obj v_2317014_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317015_25 = PRIM_CAR(v_2317014_25);
-Obj v_2317016_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317015_25);
-if (True == v_2317016_25) {
-Obj v_2317017_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317018_25 = PRIM_CDR(v_2317017_25);
-Obj v_exp1 = v_2317018_25;
-Obj v_2317019_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317020_25 = PRIM_ISCONS(v_2317019_25);
-if (True == v_2317020_25) {
-Obj v_2317021_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317022_25 = PRIM_CAR(v_2317021_25);
-Obj v_2317023_25 = PRIM_ISCONS(v_2317022_25);
-if (True == v_2317023_25) {
-Obj v_2317024_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317025_25 = PRIM_CAR(v_2317024_25);
-Obj v_2317026_25 = PRIM_CAR(v_2317025_25);
-Obj v_2317027_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317026_25);
-if (True == v_2317027_25) {
-Obj v_2317028_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317029_25 = PRIM_CAR(v_2317028_25);
-Obj v_2317030_25 = PRIM_CDR(v_2317029_25);
-Obj v_exp2 = v_2317030_25;
-Obj v_2317031_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317032_25 = PRIM_CDR(v_2317031_25);
-Obj v_2317033_25 = PRIM_EQ(Nil, v_2317032_25);
-if (True == v_2317033_25) {
-Obj v_2317034_25 = primGenSym(co);
-Obj v_f = v_2317034_25;
-Obj v_2317035_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_exp1);
-Obj v_2317036_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp2);
-Obj v_2317037_25 = makeCons(co->gc, v_2317036_25, Nil);
-Obj v_2317038_25 = makeCons(co->gc, v_f, v_2317037_25);
-Obj v_2317039_25 = makeCons(co->gc, v_2317038_25, Nil);
-Obj v_2317040_25 = makeCons(co->gc, v_2317035_25, v_2317039_25);
-Obj v_2317041_25 = makeCons(co->gc, v_f, v_2317040_25);
-Obj v_2317042_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317041_25);
+Obj v_2316793_25 = makeNative(co->gc, 4, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2317108_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317108_25) {
+Obj v_2317109_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317110_25 = PRIM_ISCONS(v_2317109_25);
+if (True == v_2317110_25) {
+Obj v_2317111_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317112_25 = PRIM_CAR(v_2317111_25);
+Obj v_2317113_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317112_25);
+if (True == v_2317113_25) {
+Obj v_2317114_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317115_25 = PRIM_CDR(v_2317114_25);
+Obj v_exp1 = v_2317115_25;
+Obj v_2317116_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317117_25 = PRIM_ISCONS(v_2317116_25);
+if (True == v_2317117_25) {
+Obj v_2317118_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317119_25 = PRIM_CAR(v_2317118_25);
+Obj v_2317120_25 = PRIM_ISCONS(v_2317119_25);
+if (True == v_2317120_25) {
+Obj v_2317121_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317122_25 = PRIM_CAR(v_2317121_25);
+Obj v_2317123_25 = PRIM_CAR(v_2317122_25);
+Obj v_2317124_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317123_25);
+if (True == v_2317124_25) {
+Obj v_2317125_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317126_25 = PRIM_CAR(v_2317125_25);
+Obj v_2317127_25 = PRIM_CDR(v_2317126_25);
+Obj v_exp2 = v_2317127_25;
+Obj v_2317128_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317129_25 = PRIM_CDR(v_2317128_25);
+Obj v_2317130_25 = PRIM_EQ(Nil, v_2317129_25);
+if (True == v_2317130_25) {
+Obj v_2317131_25 = primGenSym(co);
+Obj v_f = v_2317131_25;
+Obj v_2317132_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_exp1);
+Obj v_2317133_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp2);
+Obj v_2317134_25 = makeCons(co->gc, v_2317133_25, Nil);
+Obj v_2317135_25 = makeCons(co->gc, v_f, v_2317134_25);
+Obj v_2317136_25 = makeCons(co->gc, v_2317135_25, Nil);
+Obj v_2317137_25 = makeCons(co->gc, v_2317132_25, v_2317136_25);
+Obj v_2317138_25 = makeCons(co->gc, v_f, v_2317137_25);
+Obj v_2317139_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317138_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317042_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317139_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316713_25);
+coraCall0(co, v_2316793_25);
 return;
 }
 }
 }
 }
 
-static void clofun12(struct Cora* co, int label, Obj *R) {
+static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316714_25 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v_2316991_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316991_25) {
-Obj v_2316992_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2316992_25;
-Obj v_2316993_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2316993_25;
+Obj v_2316794_25 = makeNative(co->gc, 1, clofun12, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2317088_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317088_25) {
+Obj v_2317089_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2317089_25;
+Obj v_2317090_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317090_25;
 R[1] = v_op;
 R[2] = v_args;
-R[3] = v_2316714_25;
-saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_op);
+R[3] = v_2316794_25;
+saveCont(co, clofun13, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316714_25);
+coraCall0(co, v_2316794_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317001_25= co->res;
-Obj v_2316999_25 = R[1];
-Obj v_2317002_25 = makeCons(co->gc, v_2316999_25, v_2317001_25);
-coraReturn(co, v_2317002_25);
+Obj v_2317098_25= co->res;
+Obj v_2317096_25 = R[1];
+Obj v_2317099_25 = makeCons(co->gc, v_2317096_25, v_2317098_25);
+coraReturn(co, v_2317099_25);
 return;
 }
 case 2:
 {
-Obj v_2317000_25= co->res;
+Obj v_2317097_25= co->res;
 Obj v_args = R[1];
-Obj v_2316999_25 = R[2];
-R[1] = v_2316999_25;
-saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2317000_25, v_args);
+Obj v_2317096_25 = R[2];
+R[1] = v_2317096_25;
+saveCont(co, clofun13, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317097_25, v_args);
 return;
 }
 case 3:
 {
-Obj v_2317007_25= co->res;
+Obj v_2317104_25= co->res;
 Obj v_tmp = R[1];
-Obj v_2317008_25 = makeCons(co->gc, v_2317007_25, Nil);
-Obj v_2317009_25 = makeCons(co->gc, v_tmp, v_2317008_25);
-Obj v_2317010_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317009_25);
+Obj v_2317105_25 = makeCons(co->gc, v_2317104_25, Nil);
+Obj v_2317106_25 = makeCons(co->gc, v_tmp, v_2317105_25);
+Obj v_2317107_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317106_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317010_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317107_25);
 return;
 }
 case 4:
 {
-Obj v_2317005_25= co->res;
+Obj v_2317102_25= co->res;
 Obj v_op = R[1];
 Obj v_args = R[2];
-Obj v_tmp = v_2317005_25;
-Obj v_2317006_25 = makeCons(co->gc, v_op, v_args);
+Obj v_tmp = v_2317102_25;
+Obj v_2317103_25 = makeCons(co->gc, v_op, v_args);
 R[1] = v_tmp;
-saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_2317006_25, v_tmp);
+saveCont(co, clofun13, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_2317103_25, v_tmp);
 return;
 }
 case 5:
 {
-Obj v_2316996_25= co->res;
+Obj v_2317093_25= co->res;
 Obj v_required = R[1];
 Obj v_op = R[2];
 Obj v_args = R[3];
-Obj v_provided = v_2316996_25;
-Obj v_2316997_25 = PRIM_EQ(v_required, v_provided);
-if (True == v_2316997_25) {
-Obj v_2316998_25 = makeCons(co->gc, v_op, Nil);
-Obj v_2316999_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2316998_25);
+Obj v_provided = v_2317093_25;
+Obj v_2317094_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2317094_25) {
+Obj v_2317095_25 = makeCons(co->gc, v_op, Nil);
+Obj v_2317096_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317095_25);
 R[1] = v_args;
-R[2] = v_2316999_25;
-saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
+R[2] = v_2317096_25;
+saveCont(co, clofun13, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2317003_25 = PRIM_GT(v_required, v_provided);
-if (True == v_2317003_25) {
-Obj v_2317004_25 = PRIM_SUB(v_required, v_provided);
+Obj v_2317100_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2317100_25) {
+Obj v_2317101_25 = PRIM_SUB(v_required, v_provided);
 R[1] = v_op;
 R[2] = v_args;
-saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_2317004_25, Nil);
+saveCont(co, clofun13, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_2317101_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
 case 6:
 {
-Obj v_2316995_25= co->res;
+Obj v_2317092_25= co->res;
 Obj v_op = R[1];
 Obj v_args = R[2];
-Obj v_required = v_2316995_25;
+Obj v_required = v_2317092_25;
 R[1] = v_required;
 R[2] = v_op;
 R[3] = v_args;
-saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_args);
+saveCont(co, clofun13, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
 return;
 }
 case 7:
 {
-Obj v_2316994_25= co->res;
+Obj v_2317091_25= co->res;
 Obj v_op = R[1];
 Obj v_args = R[2];
-Obj v_2316714_25 = R[3];
-if (True == v_2316994_25) {
+Obj v_2316794_25 = R[3];
+if (True == v_2317091_25) {
 R[1] = v_op;
 R[2] = v_args;
-saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_op);
+saveCont(co, clofun13, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316714_25);
+coraCall0(co, v_2316794_25);
 return;
 }
 }
 }
 }
 
+static void clofun12(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+saveCont(co, clofun12, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+}
+case 1:
+{
+Obj v_2317087_25= co->res;
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317087_25, closureRef(R[0], 2));
+return;
+}
+}
+}
+
 static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
+Obj v_2316777_25 = R[1];
+Obj v_2316778_25 = R[2];
+Obj v_2317063_25 = primIsSymbol(v_2316777_25);
+if (True == v_2317063_25) {
+R[1] = v_2316777_25;
 saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2316777_25, v_2316778_25);
+return;
+} else {
+Obj v_2317067_25 = PRIM_ISCONS(v_2316777_25);
+if (True == v_2317067_25) {
+Obj v_2317068_25 = PRIM_CAR(v_2316777_25);
+Obj v_x = v_2317068_25;
+Obj v_2317069_25 = PRIM_CDR(v_2316777_25);
+Obj v_y = v_2317069_25;
+Obj v_2317070_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, Nil);
+Obj v_2317071_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317070_25);
+R[1] = v_y;
+R[2] = v_2316778_25;
+R[3] = v_2317071_25;
+saveCont(co, clofun11, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_x, v_2316778_25);
+return;
+} else {
+Obj v_2317077_25 = makeCons(co->gc, v_2316777_25, Nil);
+Obj v_2317078_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317077_25);
+coraReturn(co, v_2317078_25);
 return;
 }
+}
+}
 case 1:
 {
-Obj v_2316990_25= co->res;
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v_2316990_25, closureRef(R[0], 2));
+Obj v_2317064_25= co->res;
+Obj v_2316777_25 = R[1];
+Obj v_2317065_25 = makeCons(co->gc, v_2316777_25, Nil);
+Obj v_2317066_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317065_25);
+coraReturn(co, v_2317066_25);
+return;
+}
+case 2:
+{
+Obj v_2317073_25= co->res;
+Obj v_2317072_25 = R[1];
+Obj v_2317071_25 = R[2];
+Obj v_2317074_25 = makeCons(co->gc, v_2317073_25, Nil);
+Obj v_2317075_25 = makeCons(co->gc, v_2317072_25, v_2317074_25);
+Obj v_2317076_25 = makeCons(co->gc, v_2317071_25, v_2317075_25);
+coraReturn(co, v_2317076_25);
+return;
+}
+case 3:
+{
+Obj v_2317072_25= co->res;
+Obj v_y = R[1];
+Obj v_2316778_25 = R[2];
+Obj v_2317071_25 = R[3];
+R[1] = v_2317072_25;
+R[2] = v_2317071_25;
+saveCont(co, clofun11, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_y, v_2316778_25);
 return;
 }
 }
@@ -8522,18 +8585,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316698_25 = R[1];
-Obj v_2316699_25 = R[2];
-Obj v_2316978_25 = PRIM_EQ(MAKE_NUMBER(0), v_2316698_25);
-if (True == v_2316978_25) {
-coraReturn(co, v_2316699_25);
+Obj v_2316773_25 = R[1];
+Obj v_2316774_25 = R[2];
+Obj v_2317058_25 = PRIM_EQ(MAKE_NUMBER(0), v_2316773_25);
+if (True == v_2317058_25) {
+coraReturn(co, v_2316774_25);
 return;
 } else {
-Obj v_2316979_25 = PRIM_SUB(v_2316698_25, MAKE_NUMBER(1));
-Obj v_2316980_25 = primGenSym(co);
-Obj v_2316981_25 = makeCons(co->gc, v_2316980_25, v_2316699_25);
+Obj v_2317059_25 = PRIM_SUB(v_2316773_25, MAKE_NUMBER(1));
+Obj v_2317060_25 = primGenSym(co);
+Obj v_2317061_25 = makeCons(co->gc, v_2317060_25, v_2316774_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_2316979_25, v_2316981_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_2317059_25, v_2317061_25);
 return;
 }
 }
@@ -8546,29 +8609,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj v_2316976_25= co->res;
+Obj v_2317056_25= co->res;
 Obj v_find = R[1];
-if (True == v_2316976_25) {
+if (True == v_2317056_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2316975_25= co->res;
-Obj v_find = v_2316975_25;
+Obj v_2317055_25= co->res;
+Obj v_find = v_2317055_25;
 R[1] = v_find;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_find);
 return;
 }
 }
@@ -8580,29 +8643,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj v_2316973_25= co->res;
+Obj v_2317053_25= co->res;
 Obj v_find = R[1];
-if (True == v_2316973_25) {
+if (True == v_2317053_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2316972_25= co->res;
-Obj v_find = v_2316972_25;
+Obj v_2317052_25= co->res;
+Obj v_find = v_2317052_25;
 R[1] = v_find;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_find);
 return;
 }
 }
@@ -8614,21 +8677,21 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj v_2316969_25= co->res;
-Obj v_2316970_25 = primNot(v_2316969_25);
-coraReturn(co, v_2316970_25);
+Obj v_2317049_25= co->res;
+Obj v_2317050_25 = primNot(v_2317049_25);
+coraReturn(co, v_2317050_25);
 return;
 }
 case 2:
 {
-Obj v_2316968_25= co->res;
+Obj v_2317048_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2316968_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_2317048_25);
 return;
 }
 }
@@ -8638,40 +8701,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316694_25 = R[1];
-Obj v_2316695_25 = R[2];
-Obj v_2316892_25 = PRIM_EQ(Nil, v_2316695_25);
-if (True == v_2316892_25) {
+Obj v_2316769_25 = R[1];
+Obj v_2316770_25 = R[2];
+Obj v_2316972_25 = PRIM_EQ(Nil, v_2316770_25);
+if (True == v_2316972_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2316893_25 = PRIM_ISCONS(v_2316695_25);
-if (True == v_2316893_25) {
-Obj v_2316894_25 = PRIM_CAR(v_2316695_25);
-Obj v_hd = v_2316894_25;
-Obj v_2316895_25 = PRIM_CDR(v_2316695_25);
-Obj v_tl = v_2316895_25;
-R[1] = v_2316694_25;
+Obj v_2316973_25 = PRIM_ISCONS(v_2316770_25);
+if (True == v_2316973_25) {
+Obj v_2316974_25 = PRIM_CAR(v_2316770_25);
+Obj v_hd = v_2316974_25;
+Obj v_2316975_25 = PRIM_CDR(v_2316770_25);
+Obj v_tl = v_2316975_25;
+R[1] = v_2316769_25;
 R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_2316694_25, v_hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v_2316769_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316896_25= co->res;
-Obj v_2316694_25 = R[1];
+Obj v_2316976_25= co->res;
+Obj v_2316769_25 = R[1];
 Obj v_tl = R[2];
-Obj v_2316897_25 = PRIM_LT(v_2316896_25, MAKE_NUMBER(0));
-if (True == v_2316897_25) {
+Obj v_2316977_25 = PRIM_LT(v_2316976_25, MAKE_NUMBER(0));
+if (True == v_2316977_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v_2316694_25, v_tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_2316769_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8688,7 +8751,7 @@ case 0:
 Obj v_x = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8698,32 +8761,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316688_25 = R[1];
-Obj v_2316689_25 = R[2];
-Obj v_2316690_25 = R[3];
-Obj v_2316881_25 = PRIM_EQ(Nil, v_2316690_25);
-if (True == v_2316881_25) {
+Obj v_2316763_25 = R[1];
+Obj v_2316764_25 = R[2];
+Obj v_2316765_25 = R[3];
+Obj v_2316961_25 = PRIM_EQ(Nil, v_2316765_25);
+if (True == v_2316961_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2316692_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2316690_25, v_2316688_25, v_2316689_25);
-Obj v_2316886_25 = PRIM_ISCONS(v_2316690_25);
-if (True == v_2316886_25) {
-Obj v_2316887_25 = PRIM_CAR(v_2316690_25);
-Obj v_a = v_2316887_25;
-Obj v_2316888_25 = PRIM_CDR(v_2316690_25);
-Obj v_2316889_25 = PRIM_EQ(v_2316689_25, v_a);
-if (True == v_2316889_25) {
-coraReturn(co, v_2316688_25);
+Obj v_2316767_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2316765_25, v_2316763_25, v_2316764_25);
+Obj v_2316966_25 = PRIM_ISCONS(v_2316765_25);
+if (True == v_2316966_25) {
+Obj v_2316967_25 = PRIM_CAR(v_2316765_25);
+Obj v_a = v_2316967_25;
+Obj v_2316968_25 = PRIM_CDR(v_2316765_25);
+Obj v_2316969_25 = PRIM_EQ(v_2316764_25, v_a);
+if (True == v_2316969_25) {
+coraReturn(co, v_2316763_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316692_25);
+coraCall0(co, v_2316767_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316692_25);
+coraCall0(co, v_2316767_25);
 return;
 }
 }
@@ -8735,18 +8798,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316882_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316882_25) {
-Obj v_2316883_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316884_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_b = v_2316884_25;
-Obj v_2316885_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2316962_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316962_25) {
+Obj v_2316963_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316964_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2316964_25;
+Obj v_2316965_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v_2316885_25, closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v_2316965_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8757,39 +8820,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316683_25 = R[1];
-Obj v_2316684_25 = R[2];
-Obj v_2316685_25 = R[3];
-Obj v_2316875_25 = PRIM_EQ(Nil, v_2316685_25);
-if (True == v_2316875_25) {
-coraReturn(co, v_2316684_25);
+Obj v_2316758_25 = R[1];
+Obj v_2316759_25 = R[2];
+Obj v_2316760_25 = R[3];
+Obj v_2316955_25 = PRIM_EQ(Nil, v_2316760_25);
+if (True == v_2316955_25) {
+coraReturn(co, v_2316759_25);
 return;
 } else {
-Obj v_2316876_25 = PRIM_ISCONS(v_2316685_25);
-if (True == v_2316876_25) {
-Obj v_2316877_25 = PRIM_CAR(v_2316685_25);
-Obj v_x = v_2316877_25;
-Obj v_2316878_25 = PRIM_CDR(v_2316685_25);
-Obj v_y = v_2316878_25;
-R[1] = v_2316683_25;
+Obj v_2316956_25 = PRIM_ISCONS(v_2316760_25);
+if (True == v_2316956_25) {
+Obj v_2316957_25 = PRIM_CAR(v_2316760_25);
+Obj v_x = v_2316957_25;
+Obj v_2316958_25 = PRIM_CDR(v_2316760_25);
+Obj v_y = v_2316958_25;
+R[1] = v_2316758_25;
 R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v_2316683_25, v_2316684_25, v_x);
+coraCall2(co, v_2316758_25, v_2316759_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316879_25= co->res;
-Obj v_2316683_25 = R[1];
+Obj v_2316959_25= co->res;
+Obj v_2316758_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v_2316683_25, v_2316879_25, v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v_2316758_25, v_2316959_25, v_y);
 return;
 }
 }
@@ -8799,44 +8862,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316678_25 = R[1];
-Obj v_2316679_25 = R[2];
-Obj v_2316860_25 = PRIM_EQ(Nil, v_2316679_25);
-if (True == v_2316860_25) {
+Obj v_2316753_25 = R[1];
+Obj v_2316754_25 = R[2];
+Obj v_2316940_25 = PRIM_EQ(Nil, v_2316754_25);
+if (True == v_2316940_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2316681_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2316679_25, v_2316678_25);
-Obj v_2316864_25 = PRIM_ISCONS(v_2316679_25);
-if (True == v_2316864_25) {
-Obj v_2316865_25 = PRIM_CAR(v_2316679_25);
-Obj v_2316866_25 = PRIM_ISCONS(v_2316865_25);
-if (True == v_2316866_25) {
-Obj v_2316867_25 = PRIM_CAR(v_2316679_25);
-Obj v_2316868_25 = PRIM_CAR(v_2316867_25);
-Obj v_x = v_2316868_25;
-Obj v_2316869_25 = PRIM_CAR(v_2316679_25);
-Obj v_2316870_25 = PRIM_CDR(v_2316869_25);
-Obj v_y = v_2316870_25;
-Obj v_2316871_25 = PRIM_CDR(v_2316679_25);
-Obj v_2316872_25 = PRIM_EQ(v_2316678_25, v_x);
-if (True == v_2316872_25) {
-Obj v_2316873_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2316873_25);
+Obj v_2316756_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2316754_25, v_2316753_25);
+Obj v_2316944_25 = PRIM_ISCONS(v_2316754_25);
+if (True == v_2316944_25) {
+Obj v_2316945_25 = PRIM_CAR(v_2316754_25);
+Obj v_2316946_25 = PRIM_ISCONS(v_2316945_25);
+if (True == v_2316946_25) {
+Obj v_2316947_25 = PRIM_CAR(v_2316754_25);
+Obj v_2316948_25 = PRIM_CAR(v_2316947_25);
+Obj v_x = v_2316948_25;
+Obj v_2316949_25 = PRIM_CAR(v_2316754_25);
+Obj v_2316950_25 = PRIM_CDR(v_2316949_25);
+Obj v_y = v_2316950_25;
+Obj v_2316951_25 = PRIM_CDR(v_2316754_25);
+Obj v_2316952_25 = PRIM_EQ(v_2316753_25, v_x);
+if (True == v_2316952_25) {
+Obj v_2316953_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2316953_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316681_25);
+coraCall0(co, v_2316756_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316681_25);
+coraCall0(co, v_2316756_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316681_25);
+coraCall0(co, v_2316756_25);
 return;
 }
 }
@@ -8848,17 +8911,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316861_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316861_25) {
-Obj v_2316862_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316863_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2316863_25;
+Obj v_2316941_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2316941_25) {
+Obj v_2316942_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2316943_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2316943_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index e0a5aa7..0ae85f3 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -51,9 +51,14 @@
 	0 res => res
 	n res => (temp-list (- n 1) (cons (gensym) res)))
 
+  (func parse-quote
+	x globals => (begin (add-symbol-to-list x globals) ['%const x]) where (symbol? x)
+	[x . y] globals => [['%builtin 'cons] (parse-quote x globals) (parse-quote y globals)]
+	x globals => ['%const x])
+
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
-	_ globals ['quote x] => (begin (add-symbol-to-list x globals) ['%const x])
+	_ globals ['quote x] => (parse-quote x globals)
 	env globals x => (if (elem? x env) x
 			     (begin
 			      (add-symbol-to-list x globals)
-- 
2.43.0


From 84e4aaaa965dcd29928bebb65a021e4169bfada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 08/53] fix: compiled let bindings keep their lexical scope

Two lets of one name in one function were one C variable (or did not compile),
a let that shadows a captured variable read the captured one, a local called
return or call was taken for the compiler's own form and a local variable named
like a primitive was ignored in operator position.
---
 init.c       | 2922 +++++++++----------
 lib/toc.c    | 7586 ++++++++++++++++++++++++++------------------------
 lib/toc.cora |   94 +-
 3 files changed, 5468 insertions(+), 5134 deletions(-)

diff --git a/init.c b/init.c
index 78a9d43..bad4dd9 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312621_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v_2312624_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v_2312627_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v_2312630_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v_2312633_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v_2312637_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v_2312642_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v_2312646_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2312654_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2312656_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2312661_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2313265_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2313268_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2313271_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2313274_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2313277_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2313281_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2313286_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2313290_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2313298_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2313300_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2313305_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v_2313141_25= co->res;
-Obj v_2313147_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2313159_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v_2313160_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2313161_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313160_25);
-Obj v_2313162_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313161_25);
-Obj v_2313163_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2313164_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313163_25);
-Obj v_2313165_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313164_25);
-Obj v_2313166_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2313167_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313166_25);
-Obj v_2313168_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313167_25);
-Obj v_2313169_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2313170_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313169_25);
-Obj v_2313171_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313170_25);
-Obj v_2313172_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2313173_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313172_25);
-Obj v_2313174_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313173_25);
-Obj v_2313175_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2313176_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313175_25);
-Obj v_2313177_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313176_25);
-Obj v_2313178_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2313179_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313178_25);
-Obj v_2313180_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313179_25);
-Obj v_2313181_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2313182_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313181_25);
-Obj v_2313183_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313182_25);
-Obj v_2313184_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2313185_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313184_25);
-Obj v_2313186_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313185_25);
-Obj v_2313187_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2313188_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313187_25);
-Obj v_2313189_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313188_25);
-Obj v_2313190_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2313191_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313190_25);
-Obj v_2313192_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313191_25);
-Obj v_2313193_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2313194_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313193_25);
-Obj v_2313195_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313194_25);
-Obj v_2313196_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2313197_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313196_25);
-Obj v_2313198_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313197_25);
-Obj v_2313199_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2313200_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313199_25);
-Obj v_2313201_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313200_25);
-Obj v_2313202_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2313203_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313202_25);
-Obj v_2313204_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313203_25);
-Obj v_2313205_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2313206_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313205_25);
-Obj v_2313207_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313206_25);
-Obj v_2313208_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2313209_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313208_25);
-Obj v_2313210_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313209_25);
-Obj v_2313211_25 = makeCons(co->gc, v_2313210_25, Nil);
-Obj v_2313212_25 = makeCons(co->gc, v_2313207_25, v_2313211_25);
-Obj v_2313213_25 = makeCons(co->gc, v_2313204_25, v_2313212_25);
-Obj v_2313214_25 = makeCons(co->gc, v_2313201_25, v_2313213_25);
-Obj v_2313215_25 = makeCons(co->gc, v_2313198_25, v_2313214_25);
-Obj v_2313216_25 = makeCons(co->gc, v_2313195_25, v_2313215_25);
-Obj v_2313217_25 = makeCons(co->gc, v_2313192_25, v_2313216_25);
-Obj v_2313218_25 = makeCons(co->gc, v_2313189_25, v_2313217_25);
-Obj v_2313219_25 = makeCons(co->gc, v_2313186_25, v_2313218_25);
-Obj v_2313220_25 = makeCons(co->gc, v_2313183_25, v_2313219_25);
-Obj v_2313221_25 = makeCons(co->gc, v_2313180_25, v_2313220_25);
-Obj v_2313222_25 = makeCons(co->gc, v_2313177_25, v_2313221_25);
-Obj v_2313223_25 = makeCons(co->gc, v_2313174_25, v_2313222_25);
-Obj v_2313224_25 = makeCons(co->gc, v_2313171_25, v_2313223_25);
-Obj v_2313225_25 = makeCons(co->gc, v_2313168_25, v_2313224_25);
-Obj v_2313226_25 = makeCons(co->gc, v_2313165_25, v_2313225_25);
-Obj v_2313227_25 = makeCons(co->gc, v_2313162_25, v_2313226_25);
-Obj v_2313228_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313227_25);
-Obj v_2313243_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v_2313247_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v_2313425_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v_2313426_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v_2313427_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2313426_25);
-Obj v_2313428_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2313427_25);
-Obj v_2313429_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2313428_25);
-Obj v_2313430_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2313429_25);
-Obj v_2313431_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2313430_25);
-Obj v_2313432_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2313431_25);
-Obj v_2313433_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2313432_25);
-Obj v_2313434_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2313433_25);
-Obj v_2313435_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2313434_25);
-Obj v_2313436_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313435_25);
-Obj v_2313437_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2313436_25);
-Obj v_2313438_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2313437_25);
-Obj v_2313439_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2313438_25);
-Obj v_2313440_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2313439_25);
-Obj v_2313441_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2313440_25);
-Obj v_2313442_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2313441_25);
-Obj v_2313443_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2313442_25);
-Obj v_2313444_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2313443_25);
-Obj v_2313445_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2313444_25);
-Obj v_2313446_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2313445_25);
-Obj v_2313447_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2313446_25);
-Obj v_2313448_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2313447_25);
-Obj v_2313449_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2313448_25);
-Obj v_2313450_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2313449_25);
-Obj v_2313451_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2313450_25);
-Obj v_2313452_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2313451_25);
-Obj v_2313453_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2313452_25);
-Obj v_2313454_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2313453_25);
-Obj v_2313455_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2313454_25);
-Obj v_2313456_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2313455_25);
-Obj v_2313457_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2313456_25);
-Obj v_2313458_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2313457_25);
-Obj v_2313459_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2313458_25);
-Obj v_2313460_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2313459_25);
-Obj v_2313461_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2313460_25);
-Obj v_2313462_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2313461_25);
-Obj v_2313463_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2313462_25);
-Obj v_2313464_25 = primSet(co, getBinding(co, packageID, 53).name, v_2313463_25);
-Obj v_2313465_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v_2313466_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v_2313467_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v_2313468_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v_2313469_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v_2313470_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v_2313471_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v_2313472_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v_2313473_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v_2313474_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v_2313475_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v_2313476_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v_2313477_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v_2313478_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v_2313479_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v_2313480_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v_2313481_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v_2313482_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v_2313483_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v_2313484_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v_2313485_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v_2313486_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v_2313487_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v_2313488_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v_2313489_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v_2313490_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v_2313491_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v_2313492_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v_2313493_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v_2313494_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v_2313495_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v_2313496_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v_2313497_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v_2313498_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v_2313499_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v_2313500_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v_2313501_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v_2313502_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v_2313503_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v_2313503_25);
+Obj v_2313785_25= co->res;
+Obj v_2313791_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2313803_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v_2313804_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2313805_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313804_25);
+Obj v_2313806_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313805_25);
+Obj v_2313807_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2313808_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313807_25);
+Obj v_2313809_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313808_25);
+Obj v_2313810_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2313811_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313810_25);
+Obj v_2313812_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313811_25);
+Obj v_2313813_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2313814_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313813_25);
+Obj v_2313815_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313814_25);
+Obj v_2313816_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2313817_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313816_25);
+Obj v_2313818_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313817_25);
+Obj v_2313819_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2313820_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313819_25);
+Obj v_2313821_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313820_25);
+Obj v_2313822_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2313823_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313822_25);
+Obj v_2313824_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313823_25);
+Obj v_2313825_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2313826_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313825_25);
+Obj v_2313827_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313826_25);
+Obj v_2313828_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2313829_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313828_25);
+Obj v_2313830_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313829_25);
+Obj v_2313831_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2313832_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313831_25);
+Obj v_2313833_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313832_25);
+Obj v_2313834_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2313835_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313834_25);
+Obj v_2313836_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313835_25);
+Obj v_2313837_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2313838_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313837_25);
+Obj v_2313839_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313838_25);
+Obj v_2313840_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2313841_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313840_25);
+Obj v_2313842_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313841_25);
+Obj v_2313843_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2313844_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313843_25);
+Obj v_2313845_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313844_25);
+Obj v_2313846_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2313847_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313846_25);
+Obj v_2313848_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313847_25);
+Obj v_2313849_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2313850_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313849_25);
+Obj v_2313851_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313850_25);
+Obj v_2313852_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2313853_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313852_25);
+Obj v_2313854_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313853_25);
+Obj v_2313855_25 = makeCons(co->gc, v_2313854_25, Nil);
+Obj v_2313856_25 = makeCons(co->gc, v_2313851_25, v_2313855_25);
+Obj v_2313857_25 = makeCons(co->gc, v_2313848_25, v_2313856_25);
+Obj v_2313858_25 = makeCons(co->gc, v_2313845_25, v_2313857_25);
+Obj v_2313859_25 = makeCons(co->gc, v_2313842_25, v_2313858_25);
+Obj v_2313860_25 = makeCons(co->gc, v_2313839_25, v_2313859_25);
+Obj v_2313861_25 = makeCons(co->gc, v_2313836_25, v_2313860_25);
+Obj v_2313862_25 = makeCons(co->gc, v_2313833_25, v_2313861_25);
+Obj v_2313863_25 = makeCons(co->gc, v_2313830_25, v_2313862_25);
+Obj v_2313864_25 = makeCons(co->gc, v_2313827_25, v_2313863_25);
+Obj v_2313865_25 = makeCons(co->gc, v_2313824_25, v_2313864_25);
+Obj v_2313866_25 = makeCons(co->gc, v_2313821_25, v_2313865_25);
+Obj v_2313867_25 = makeCons(co->gc, v_2313818_25, v_2313866_25);
+Obj v_2313868_25 = makeCons(co->gc, v_2313815_25, v_2313867_25);
+Obj v_2313869_25 = makeCons(co->gc, v_2313812_25, v_2313868_25);
+Obj v_2313870_25 = makeCons(co->gc, v_2313809_25, v_2313869_25);
+Obj v_2313871_25 = makeCons(co->gc, v_2313806_25, v_2313870_25);
+Obj v_2313872_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313871_25);
+Obj v_2313887_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v_2313891_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v_2314069_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v_2314070_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2314071_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314070_25);
+Obj v_2314072_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314071_25);
+Obj v_2314073_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314072_25);
+Obj v_2314074_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2314073_25);
+Obj v_2314075_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2314074_25);
+Obj v_2314076_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2314075_25);
+Obj v_2314077_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314076_25);
+Obj v_2314078_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314077_25);
+Obj v_2314079_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314078_25);
+Obj v_2314080_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314079_25);
+Obj v_2314081_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314080_25);
+Obj v_2314082_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314081_25);
+Obj v_2314083_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314082_25);
+Obj v_2314084_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314083_25);
+Obj v_2314085_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314084_25);
+Obj v_2314086_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314085_25);
+Obj v_2314087_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314086_25);
+Obj v_2314088_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314087_25);
+Obj v_2314089_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314088_25);
+Obj v_2314090_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314089_25);
+Obj v_2314091_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314090_25);
+Obj v_2314092_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314091_25);
+Obj v_2314093_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314092_25);
+Obj v_2314094_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314093_25);
+Obj v_2314095_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314094_25);
+Obj v_2314096_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314095_25);
+Obj v_2314097_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314096_25);
+Obj v_2314098_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2314097_25);
+Obj v_2314099_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2314098_25);
+Obj v_2314100_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2314099_25);
+Obj v_2314101_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2314100_25);
+Obj v_2314102_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314101_25);
+Obj v_2314103_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314102_25);
+Obj v_2314104_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314103_25);
+Obj v_2314105_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314104_25);
+Obj v_2314106_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314105_25);
+Obj v_2314107_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314106_25);
+Obj v_2314108_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314107_25);
+Obj v_2314109_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2314110_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2314111_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2314112_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2314113_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2314114_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2314115_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v_2314116_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v_2314117_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v_2314118_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v_2314119_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2314120_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2314121_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2314122_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2314123_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2314124_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2314125_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2314126_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2314127_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2314128_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2314129_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2314130_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2314131_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2314132_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2314133_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2314134_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2314135_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2314136_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2314137_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2314138_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2314139_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2314140_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v_2314141_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2314142_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v_2314143_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2314144_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2314145_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2314146_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2314147_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2314147_25);
 return;
 }
 case 2:
 {
-Obj v_2313091_25= co->res;
-Obj v_2313120_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v_2313121_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2313735_25= co->res;
+Obj v_2313764_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v_2313765_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2313074_25= co->res;
-Obj v_2313088_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2313718_25= co->res;
+Obj v_2313732_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v_2313052_25= co->res;
-Obj v_2313072_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2313696_25= co->res;
+Obj v_2313716_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v_2313021_25= co->res;
-Obj v_2313022_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v_2313023_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v_2313026_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v_2313050_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v_2313665_25= co->res;
+Obj v_2313666_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v_2313667_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v_2313670_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v_2313694_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v_2312913_25= co->res;
-Obj v_2312965_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v_2312966_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2312971_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v_2312975_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v_2312976_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2312984_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v_2312985_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2312991_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2313002_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v_2313008_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v_2313557_25= co->res;
+Obj v_2313609_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v_2313610_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2313615_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v_2313619_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v_2313620_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2313628_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v_2313629_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2313635_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2313646_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2313652_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v_2312808_25= co->res;
-Obj v_2312830_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v_2312863_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v_2312876_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v_2312898_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v_2312912_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v_2313452_25= co->res;
+Obj v_2313474_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2313507_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2313520_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2313542_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2313556_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v_2312793_25= co->res;
-Obj v_2312796_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2312806_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v_2313437_25= co->res;
+Obj v_2313440_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2313450_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v_2312779_25= co->res;
-Obj v_2312791_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v_2313423_25= co->res;
+Obj v_2313435_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v_2312765_25= co->res;
-Obj v_2312777_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v_2313409_25= co->res;
+Obj v_2313421_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v_2312751_25= co->res;
+Obj v_2313395_25= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v_2312729_25= co->res;
-Obj v_2312734_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v_2312737_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v_2312749_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v_2313373_25= co->res;
+Obj v_2313378_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2313381_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2313393_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v_2312719_25= co->res;
+Obj v_2313363_25= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v_2312717_25= co->res;
+Obj v_2313361_25= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v_2312662_25= co->res;
-Obj v_2312663_25 = primSet(co, getBinding(co, packageID, 149).name, v_2312662_25);
-Obj v_2312669_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v_2312670_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v_2312671_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v_2312672_25 = primGenSym(co);
-Obj v_2312673_25 = primSet(co, getBinding(co, packageID, 145).name, v_2312672_25);
-Obj v_2312677_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v_2312686_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v_2312687_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v_2312704_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v_2312705_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v_2312716_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v_2313306_25= co->res;
+Obj v_2313307_25 = primSet(co, getBinding(co, packageID, 149).name, v_2313306_25);
+Obj v_2313313_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2313314_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2313315_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v_2313316_25 = primGenSym(co);
+Obj v_2313317_25 = primSet(co, getBinding(co, packageID, 145).name, v_2313316_25);
+Obj v_2313321_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2313330_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2313331_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2313348_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2313349_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v_2313360_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312592_25 = R[1];
-Obj v_2312593_25 = R[2];
-Obj v_2312594_25 = R[3];
-Obj v_2312595_25 = R[4];
-Obj v_2312616_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2312592_25, v_2312593_25, v_2312594_25, v_2312595_25);
-R[1] = v_2312595_25;
-R[2] = v_2312616_25;
+Obj v_2313140_25 = R[1];
+Obj v_2313141_25 = R[2];
+Obj v_2313142_25 = R[3];
+Obj v_2313143_25 = R[4];
+Obj v_2313251_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2313140_25, v_2313141_25, v_2313142_25, v_2313143_25);
+R[1] = v_2313143_25;
+R[2] = v_2313251_25;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2312595_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313143_25);
 return;
 }
 case 1:
 {
-Obj v_2313424_25= co->res;
-Obj v_2312616_25 = R[1];
-if (True == v_2313424_25) {
+Obj v_2314068_25= co->res;
+Obj v_2313251_25 = R[1];
+if (True == v_2314068_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312616_25, True);
+coraCall1(co, v_2313251_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312616_25, False);
+coraCall1(co, v_2313251_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313423_25= co->res;
-Obj v_2312595_25 = R[1];
-Obj v_2312616_25 = R[2];
-if (True == v_2313423_25) {
+Obj v_2314067_25= co->res;
+Obj v_2313143_25 = R[1];
+Obj v_2313251_25 = R[2];
+if (True == v_2314067_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312616_25, True);
+coraCall1(co, v_2313251_25, True);
 return;
 } else {
-R[1] = v_2312616_25;
+R[1] = v_2313251_25;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312595_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313143_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2313421_25= co->res;
-Obj v_2312595_25 = R[1];
-Obj v_2312616_25 = R[2];
-if (True == v_2313421_25) {
+Obj v_2314065_25= co->res;
+Obj v_2313143_25 = R[1];
+Obj v_2313251_25 = R[2];
+if (True == v_2314065_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312616_25, True);
+coraCall1(co, v_2313251_25, True);
 return;
 } else {
-Obj v_2313422_25 = primIsString(v_2312595_25);
-if (True == v_2313422_25) {
+Obj v_2314066_25 = primIsString(v_2313143_25);
+if (True == v_2314066_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312616_25, True);
+coraCall1(co, v_2313251_25, True);
 return;
 } else {
-R[1] = v_2312595_25;
-R[2] = v_2312616_25;
+R[1] = v_2313143_25;
+R[2] = v_2313251_25;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2312595_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313143_25);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312617_25 = R[1];
-if (True == v_2312617_25) {
+Obj v_2313252_25 = R[1];
+if (True == v_2313252_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v_2312597_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2313409_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2313409_25) {
-Obj v_2313410_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2313411_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2313410_25);
-if (True == v_2313411_25) {
-Obj v_2313412_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313413_25 = PRIM_ISCONS(v_2313412_25);
-if (True == v_2313413_25) {
-Obj v_2313414_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313415_25 = PRIM_CAR(v_2313414_25);
-Obj v_x = v_2313415_25;
-Obj v_2313416_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2313417_25 = PRIM_CDR(v_2313416_25);
-Obj v_2313418_25 = PRIM_EQ(Nil, v_2313417_25);
-if (True == v_2313418_25) {
-Obj v_2313419_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2313420_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313419_25);
-coraReturn(co, v_2313420_25);
+Obj v_2313145_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2314053_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2314053_25) {
+Obj v_2314054_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2314055_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2314054_25);
+if (True == v_2314055_25) {
+Obj v_2314056_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314057_25 = PRIM_ISCONS(v_2314056_25);
+if (True == v_2314057_25) {
+Obj v_2314058_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314059_25 = PRIM_CAR(v_2314058_25);
+Obj v_x = v_2314059_25;
+Obj v_2314060_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314061_25 = PRIM_CDR(v_2314060_25);
+Obj v_2314062_25 = PRIM_EQ(Nil, v_2314061_25);
+if (True == v_2314062_25) {
+Obj v_2314063_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2314064_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314063_25);
+coraReturn(co, v_2314064_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312597_25);
+coraCall0(co, v_2313145_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312597_25);
+coraCall0(co, v_2313145_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312597_25);
+coraCall0(co, v_2313145_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312597_25);
+coraCall0(co, v_2313145_25);
 return;
 }
 }
@@ -721,37 +721,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313248_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2313248_25) {
+Obj v_2313892_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2313892_25) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2312599_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313387_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313387_25) {
-Obj v_2313388_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313389_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2313388_25);
-if (True == v_2313389_25) {
-Obj v_2313390_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313391_25 = PRIM_ISCONS(v_2313390_25);
-if (True == v_2313391_25) {
-Obj v_2313392_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313393_25 = PRIM_CAR(v_2313392_25);
-Obj v_args = v_2313393_25;
-Obj v_2313394_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313395_25 = PRIM_CDR(v_2313394_25);
-Obj v_2313396_25 = PRIM_ISCONS(v_2313395_25);
-if (True == v_2313396_25) {
-Obj v_2313397_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313398_25 = PRIM_CDR(v_2313397_25);
-Obj v_2313399_25 = PRIM_CAR(v_2313398_25);
-Obj v_body = v_2313399_25;
-Obj v_2313400_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313401_25 = PRIM_CDR(v_2313400_25);
-Obj v_2313402_25 = PRIM_CDR(v_2313401_25);
-Obj v_2313403_25 = PRIM_EQ(Nil, v_2313402_25);
-if (True == v_2313403_25) {
+Obj v_2313147_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314031_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314031_25) {
+Obj v_2314032_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314033_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314032_25);
+if (True == v_2314033_25) {
+Obj v_2314034_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314035_25 = PRIM_ISCONS(v_2314034_25);
+if (True == v_2314035_25) {
+Obj v_2314036_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314037_25 = PRIM_CAR(v_2314036_25);
+Obj v_args = v_2314037_25;
+Obj v_2314038_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314039_25 = PRIM_CDR(v_2314038_25);
+Obj v_2314040_25 = PRIM_ISCONS(v_2314039_25);
+if (True == v_2314040_25) {
+Obj v_2314041_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314042_25 = PRIM_CDR(v_2314041_25);
+Obj v_2314043_25 = PRIM_CAR(v_2314042_25);
+Obj v_body = v_2314043_25;
+Obj v_2314044_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314045_25 = PRIM_CDR(v_2314044_25);
+Obj v_2314046_25 = PRIM_CDR(v_2314045_25);
+Obj v_2314047_25 = PRIM_EQ(Nil, v_2314046_25);
+if (True == v_2314047_25) {
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun92, 4, R);
@@ -759,35 +759,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312599_25);
+coraCall0(co, v_2313147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312599_25);
+coraCall0(co, v_2313147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312599_25);
+coraCall0(co, v_2313147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312599_25);
+coraCall0(co, v_2313147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312599_25);
+coraCall0(co, v_2313147_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313250_25= co->res;
-if (True == v_2313250_25) {
+Obj v_2313894_25= co->res;
+if (True == v_2313894_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj v_2313249_25= co->res;
-if (True == v_2313249_25) {
+Obj v_2313893_25= co->res;
+if (True == v_2313893_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj v_2313405_25= co->res;
+Obj v_2314049_25= co->res;
 Obj v_args = R[1];
-Obj v_2313406_25 = makeCons(co->gc, v_2313405_25, Nil);
-Obj v_2313407_25 = makeCons(co->gc, v_args, v_2313406_25);
-Obj v_2313408_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313407_25);
-coraReturn(co, v_2313408_25);
+Obj v_2314050_25 = makeCons(co->gc, v_2314049_25, Nil);
+Obj v_2314051_25 = makeCons(co->gc, v_args, v_2314050_25);
+Obj v_2314052_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314051_25);
+coraReturn(co, v_2314052_25);
 return;
 }
 case 4:
 {
-Obj v_2313404_25= co->res;
+Obj v_2314048_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313404_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314048_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312600_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313343_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313343_25) {
-Obj v_2313344_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313345_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313344_25);
-if (True == v_2313345_25) {
-Obj v_2313346_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313347_25 = PRIM_ISCONS(v_2313346_25);
-if (True == v_2313347_25) {
-Obj v_2313348_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313349_25 = PRIM_CAR(v_2313348_25);
-Obj v_2313350_25 = PRIM_ISCONS(v_2313349_25);
-if (True == v_2313350_25) {
-Obj v_2313351_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313352_25 = PRIM_CAR(v_2313351_25);
-Obj v_2313353_25 = PRIM_CAR(v_2313352_25);
-Obj v_2313354_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313353_25);
-if (True == v_2313354_25) {
-Obj v_2313355_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313356_25 = PRIM_CAR(v_2313355_25);
-Obj v_2313357_25 = PRIM_CDR(v_2313356_25);
-Obj v_2313358_25 = PRIM_ISCONS(v_2313357_25);
-if (True == v_2313358_25) {
-Obj v_2313359_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313360_25 = PRIM_CAR(v_2313359_25);
-Obj v_2313361_25 = PRIM_CDR(v_2313360_25);
-Obj v_2313362_25 = PRIM_CAR(v_2313361_25);
-Obj v_pkg = v_2313362_25;
-Obj v_2313363_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313364_25 = PRIM_CAR(v_2313363_25);
-Obj v_2313365_25 = PRIM_CDR(v_2313364_25);
-Obj v_2313366_25 = PRIM_CDR(v_2313365_25);
-Obj v_2313367_25 = PRIM_EQ(Nil, v_2313366_25);
-if (True == v_2313367_25) {
-Obj v_2313368_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313369_25 = PRIM_CDR(v_2313368_25);
-Obj v_2313370_25 = PRIM_ISCONS(v_2313369_25);
-if (True == v_2313370_25) {
-Obj v_2313371_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313372_25 = PRIM_CDR(v_2313371_25);
-Obj v_2313373_25 = PRIM_CAR(v_2313372_25);
-Obj v_y = v_2313373_25;
-Obj v_2313374_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313375_25 = PRIM_CDR(v_2313374_25);
-Obj v_2313376_25 = PRIM_CDR(v_2313375_25);
-Obj v_2313377_25 = PRIM_EQ(Nil, v_2313376_25);
-if (True == v_2313377_25) {
-Obj v_2313378_25 = primIsString(v_pkg);
-if (True == v_2313378_25) {
-Obj v_2313379_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2313380_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313379_25);
+Obj v_2313148_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313987_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313987_25) {
+Obj v_2313988_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313989_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313988_25);
+if (True == v_2313989_25) {
+Obj v_2313990_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313991_25 = PRIM_ISCONS(v_2313990_25);
+if (True == v_2313991_25) {
+Obj v_2313992_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313993_25 = PRIM_CAR(v_2313992_25);
+Obj v_2313994_25 = PRIM_ISCONS(v_2313993_25);
+if (True == v_2313994_25) {
+Obj v_2313995_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313996_25 = PRIM_CAR(v_2313995_25);
+Obj v_2313997_25 = PRIM_CAR(v_2313996_25);
+Obj v_2313998_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313997_25);
+if (True == v_2313998_25) {
+Obj v_2313999_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314000_25 = PRIM_CAR(v_2313999_25);
+Obj v_2314001_25 = PRIM_CDR(v_2314000_25);
+Obj v_2314002_25 = PRIM_ISCONS(v_2314001_25);
+if (True == v_2314002_25) {
+Obj v_2314003_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314004_25 = PRIM_CAR(v_2314003_25);
+Obj v_2314005_25 = PRIM_CDR(v_2314004_25);
+Obj v_2314006_25 = PRIM_CAR(v_2314005_25);
+Obj v_pkg = v_2314006_25;
+Obj v_2314007_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314008_25 = PRIM_CAR(v_2314007_25);
+Obj v_2314009_25 = PRIM_CDR(v_2314008_25);
+Obj v_2314010_25 = PRIM_CDR(v_2314009_25);
+Obj v_2314011_25 = PRIM_EQ(Nil, v_2314010_25);
+if (True == v_2314011_25) {
+Obj v_2314012_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314013_25 = PRIM_CDR(v_2314012_25);
+Obj v_2314014_25 = PRIM_ISCONS(v_2314013_25);
+if (True == v_2314014_25) {
+Obj v_2314015_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314016_25 = PRIM_CDR(v_2314015_25);
+Obj v_2314017_25 = PRIM_CAR(v_2314016_25);
+Obj v_y = v_2314017_25;
+Obj v_2314018_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314019_25 = PRIM_CDR(v_2314018_25);
+Obj v_2314020_25 = PRIM_CDR(v_2314019_25);
+Obj v_2314021_25 = PRIM_EQ(Nil, v_2314020_25);
+if (True == v_2314021_25) {
+Obj v_2314022_25 = primIsString(v_pkg);
+if (True == v_2314022_25) {
+Obj v_2314023_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2314024_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314023_25);
 R[1] = v_pkg;
 R[2] = v_y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2313380_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314024_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312600_25);
+coraCall0(co, v_2313148_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313383_25= co->res;
-Obj v_2313381_25 = R[1];
-Obj v_2313384_25 = makeCons(co->gc, v_2313383_25, Nil);
-Obj v_2313385_25 = makeCons(co->gc, v_2313381_25, v_2313384_25);
-Obj v_2313386_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313385_25);
-coraReturn(co, v_2313386_25);
+Obj v_2314027_25= co->res;
+Obj v_2314025_25 = R[1];
+Obj v_2314028_25 = makeCons(co->gc, v_2314027_25, Nil);
+Obj v_2314029_25 = makeCons(co->gc, v_2314025_25, v_2314028_25);
+Obj v_2314030_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314029_25);
+coraReturn(co, v_2314030_25);
 return;
 }
 case 2:
 {
-Obj v_2313381_25= co->res;
+Obj v_2314025_25= co->res;
 Obj v_pkg = R[1];
 Obj v_y = R[2];
-Obj v_2313382_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
-R[1] = v_2313381_25;
+Obj v_2314026_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2314025_25;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2313382_25, v_y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314026_25, v_y);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312601_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313335_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313335_25) {
-Obj v_2313336_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2313336_25;
-Obj v_2313337_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2313337_25;
-Obj v_2312618_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2312601_25);
-Obj v_2313341_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
-if (True == v_2313341_25) {
+Obj v_2313149_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2313979_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313979_25) {
+Obj v_2313980_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2313980_25;
+Obj v_2313981_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2313981_25;
+Obj v_2313261_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313149_25);
+Obj v_2313985_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
+if (True == v_2313985_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312618_25, True);
+coraCall1(co, v_2313261_25, True);
 return;
 } else {
-Obj v_2313342_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
-if (True == v_2313342_25) {
+Obj v_2313986_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2313986_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312618_25, True);
+coraCall1(co, v_2313261_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312618_25, False);
+coraCall1(co, v_2313261_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312601_25);
+coraCall0(co, v_2313149_25);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312619_25 = R[1];
-if (True == v_2312619_25) {
+Obj v_2313262_25 = R[1];
+if (True == v_2313262_25) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj v_2313339_25= co->res;
-Obj v_2313340_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313339_25);
-coraReturn(co, v_2313340_25);
+Obj v_2313983_25= co->res;
+Obj v_2313984_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313983_25);
+coraReturn(co, v_2313984_25);
 return;
 }
 case 2:
 {
-Obj v_2313338_25= co->res;
+Obj v_2313982_25= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313338_25, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313982_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,42 +1040,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312602_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313302_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313302_25) {
-Obj v_2313303_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313304_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313303_25);
-if (True == v_2313304_25) {
-Obj v_2313305_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313306_25 = PRIM_ISCONS(v_2313305_25);
-if (True == v_2313306_25) {
-Obj v_2313307_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313308_25 = PRIM_CAR(v_2313307_25);
-Obj v_a = v_2313308_25;
-Obj v_2313309_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313310_25 = PRIM_CDR(v_2313309_25);
-Obj v_2313311_25 = PRIM_ISCONS(v_2313310_25);
-if (True == v_2313311_25) {
-Obj v_2313312_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313313_25 = PRIM_CDR(v_2313312_25);
-Obj v_2313314_25 = PRIM_CAR(v_2313313_25);
-Obj v_b = v_2313314_25;
-Obj v_2313315_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313316_25 = PRIM_CDR(v_2313315_25);
-Obj v_2313317_25 = PRIM_CDR(v_2313316_25);
-Obj v_2313318_25 = PRIM_ISCONS(v_2313317_25);
-if (True == v_2313318_25) {
-Obj v_2313319_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313320_25 = PRIM_CDR(v_2313319_25);
-Obj v_2313321_25 = PRIM_CDR(v_2313320_25);
-Obj v_2313322_25 = PRIM_CAR(v_2313321_25);
-Obj v_c = v_2313322_25;
-Obj v_2313323_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313324_25 = PRIM_CDR(v_2313323_25);
-Obj v_2313325_25 = PRIM_CDR(v_2313324_25);
-Obj v_2313326_25 = PRIM_CDR(v_2313325_25);
-Obj v_2313327_25 = PRIM_EQ(Nil, v_2313326_25);
-if (True == v_2313327_25) {
+Obj v_2313150_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313946_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313946_25) {
+Obj v_2313947_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313948_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313947_25);
+if (True == v_2313948_25) {
+Obj v_2313949_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313950_25 = PRIM_ISCONS(v_2313949_25);
+if (True == v_2313950_25) {
+Obj v_2313951_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313952_25 = PRIM_CAR(v_2313951_25);
+Obj v_a = v_2313952_25;
+Obj v_2313953_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313954_25 = PRIM_CDR(v_2313953_25);
+Obj v_2313955_25 = PRIM_ISCONS(v_2313954_25);
+if (True == v_2313955_25) {
+Obj v_2313956_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313957_25 = PRIM_CDR(v_2313956_25);
+Obj v_2313958_25 = PRIM_CAR(v_2313957_25);
+Obj v_b = v_2313958_25;
+Obj v_2313959_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313960_25 = PRIM_CDR(v_2313959_25);
+Obj v_2313961_25 = PRIM_CDR(v_2313960_25);
+Obj v_2313962_25 = PRIM_ISCONS(v_2313961_25);
+if (True == v_2313962_25) {
+Obj v_2313963_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313964_25 = PRIM_CDR(v_2313963_25);
+Obj v_2313965_25 = PRIM_CDR(v_2313964_25);
+Obj v_2313966_25 = PRIM_CAR(v_2313965_25);
+Obj v_c = v_2313966_25;
+Obj v_2313967_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313968_25 = PRIM_CDR(v_2313967_25);
+Obj v_2313969_25 = PRIM_CDR(v_2313968_25);
+Obj v_2313970_25 = PRIM_CDR(v_2313969_25);
+Obj v_2313971_25 = PRIM_EQ(Nil, v_2313970_25);
+if (True == v_2313971_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun88, 2, R);
@@ -1083,57 +1083,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312602_25);
+coraCall0(co, v_2313150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312602_25);
+coraCall0(co, v_2313150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312602_25);
+coraCall0(co, v_2313150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312602_25);
+coraCall0(co, v_2313150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312602_25);
+coraCall0(co, v_2313150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312602_25);
+coraCall0(co, v_2313150_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313330_25= co->res;
-Obj v_2313328_25 = R[1];
+Obj v_2313974_25= co->res;
+Obj v_2313972_25 = R[1];
 Obj v_a = R[2];
-Obj v_2313331_25 = makeCons(co->gc, v_2313330_25, Nil);
-Obj v_2313332_25 = makeCons(co->gc, v_2313328_25, v_2313331_25);
-Obj v_2313333_25 = makeCons(co->gc, v_a, v_2313332_25);
-Obj v_2313334_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313333_25);
-coraReturn(co, v_2313334_25);
+Obj v_2313975_25 = makeCons(co->gc, v_2313974_25, Nil);
+Obj v_2313976_25 = makeCons(co->gc, v_2313972_25, v_2313975_25);
+Obj v_2313977_25 = makeCons(co->gc, v_a, v_2313976_25);
+Obj v_2313978_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313977_25);
+coraReturn(co, v_2313978_25);
 return;
 }
 case 2:
 {
-Obj v_2313328_25= co->res;
+Obj v_2313972_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2313329_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2313328_25;
+Obj v_2313973_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2313972_25;
 R[2] = v_a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313329_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313973_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312603_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313276_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2313276_25) {
-Obj v_2313277_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2313278_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313277_25);
-if (True == v_2313278_25) {
-Obj v_2313279_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313280_25 = PRIM_ISCONS(v_2313279_25);
-if (True == v_2313280_25) {
-Obj v_2313281_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313282_25 = PRIM_CAR(v_2313281_25);
-Obj v_path = v_2313282_25;
-Obj v_2313283_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313284_25 = PRIM_CDR(v_2313283_25);
-Obj v_2313285_25 = PRIM_ISCONS(v_2313284_25);
-if (True == v_2313285_25) {
-Obj v_2313286_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313287_25 = PRIM_CDR(v_2313286_25);
-Obj v_2313288_25 = PRIM_CAR(v_2313287_25);
-Obj v_import = v_2313288_25;
-Obj v_2313289_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313290_25 = PRIM_CDR(v_2313289_25);
-Obj v_2313291_25 = PRIM_CDR(v_2313290_25);
-Obj v_2313292_25 = PRIM_ISCONS(v_2313291_25);
-if (True == v_2313292_25) {
-Obj v_2313293_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313294_25 = PRIM_CDR(v_2313293_25);
-Obj v_2313295_25 = PRIM_CDR(v_2313294_25);
-Obj v_2313296_25 = PRIM_CAR(v_2313295_25);
-Obj v_body = v_2313296_25;
-Obj v_2313297_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313298_25 = PRIM_CDR(v_2313297_25);
-Obj v_2313299_25 = PRIM_CDR(v_2313298_25);
-Obj v_2313300_25 = PRIM_CDR(v_2313299_25);
-Obj v_2313301_25 = PRIM_EQ(Nil, v_2313300_25);
-if (True == v_2313301_25) {
+Obj v_2313151_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313920_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2313920_25) {
+Obj v_2313921_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2313922_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313921_25);
+if (True == v_2313922_25) {
+Obj v_2313923_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313924_25 = PRIM_ISCONS(v_2313923_25);
+if (True == v_2313924_25) {
+Obj v_2313925_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313926_25 = PRIM_CAR(v_2313925_25);
+Obj v_path = v_2313926_25;
+Obj v_2313927_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313928_25 = PRIM_CDR(v_2313927_25);
+Obj v_2313929_25 = PRIM_ISCONS(v_2313928_25);
+if (True == v_2313929_25) {
+Obj v_2313930_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313931_25 = PRIM_CDR(v_2313930_25);
+Obj v_2313932_25 = PRIM_CAR(v_2313931_25);
+Obj v_import = v_2313932_25;
+Obj v_2313933_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313934_25 = PRIM_CDR(v_2313933_25);
+Obj v_2313935_25 = PRIM_CDR(v_2313934_25);
+Obj v_2313936_25 = PRIM_ISCONS(v_2313935_25);
+if (True == v_2313936_25) {
+Obj v_2313937_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313938_25 = PRIM_CDR(v_2313937_25);
+Obj v_2313939_25 = PRIM_CDR(v_2313938_25);
+Obj v_2313940_25 = PRIM_CAR(v_2313939_25);
+Obj v_body = v_2313940_25;
+Obj v_2313941_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313942_25 = PRIM_CDR(v_2313941_25);
+Obj v_2313943_25 = PRIM_CDR(v_2313942_25);
+Obj v_2313944_25 = PRIM_CDR(v_2313943_25);
+Obj v_2313945_25 = PRIM_EQ(Nil, v_2313944_25);
+if (True == v_2313945_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312603_25);
+coraCall0(co, v_2313151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312603_25);
+coraCall0(co, v_2313151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312603_25);
+coraCall0(co, v_2313151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312603_25);
+coraCall0(co, v_2313151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312603_25);
+coraCall0(co, v_2313151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312603_25);
+coraCall0(co, v_2313151_25);
 return;
 }
 }
@@ -1220,79 +1220,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312604_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v_2313252_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313252_25) {
-Obj v_2313253_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313254_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313253_25);
-if (True == v_2313254_25) {
-Obj v_2313255_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313256_25 = PRIM_ISCONS(v_2313255_25);
-if (True == v_2313256_25) {
-Obj v_2313257_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313258_25 = PRIM_CAR(v_2313257_25);
-Obj v_var = v_2313258_25;
-Obj v_2313259_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313260_25 = PRIM_CDR(v_2313259_25);
-Obj v_2313261_25 = PRIM_ISCONS(v_2313260_25);
-if (True == v_2313261_25) {
-Obj v_2313262_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313263_25 = PRIM_CDR(v_2313262_25);
-Obj v_2313264_25 = PRIM_CAR(v_2313263_25);
-Obj v_val = v_2313264_25;
-Obj v_2313265_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313266_25 = PRIM_CDR(v_2313265_25);
-Obj v_2313267_25 = PRIM_CDR(v_2313266_25);
-Obj v_2313268_25 = PRIM_EQ(Nil, v_2313267_25);
-if (True == v_2313268_25) {
+Obj v_2313152_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2313896_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313896_25) {
+Obj v_2313897_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313898_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313897_25);
+if (True == v_2313898_25) {
+Obj v_2313899_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313900_25 = PRIM_ISCONS(v_2313899_25);
+if (True == v_2313900_25) {
+Obj v_2313901_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313902_25 = PRIM_CAR(v_2313901_25);
+Obj v_var = v_2313902_25;
+Obj v_2313903_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313904_25 = PRIM_CDR(v_2313903_25);
+Obj v_2313905_25 = PRIM_ISCONS(v_2313904_25);
+if (True == v_2313905_25) {
+Obj v_2313906_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313907_25 = PRIM_CDR(v_2313906_25);
+Obj v_2313908_25 = PRIM_CAR(v_2313907_25);
+Obj v_val = v_2313908_25;
+Obj v_2313909_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313910_25 = PRIM_CDR(v_2313909_25);
+Obj v_2313911_25 = PRIM_CDR(v_2313910_25);
+Obj v_2313912_25 = PRIM_EQ(Nil, v_2313911_25);
+if (True == v_2313912_25) {
 R[1] = v_val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312604_25);
+coraCall0(co, v_2313152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312604_25);
+coraCall0(co, v_2313152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312604_25);
+coraCall0(co, v_2313152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312604_25);
+coraCall0(co, v_2313152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312604_25);
+coraCall0(co, v_2313152_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313272_25= co->res;
-Obj v_2313271_25 = R[1];
-Obj v_2313273_25 = makeCons(co->gc, v_2313272_25, Nil);
-Obj v_2313274_25 = makeCons(co->gc, v_2313271_25, v_2313273_25);
-Obj v_2313275_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313274_25);
-coraReturn(co, v_2313275_25);
+Obj v_2313916_25= co->res;
+Obj v_2313915_25 = R[1];
+Obj v_2313917_25 = makeCons(co->gc, v_2313916_25, Nil);
+Obj v_2313918_25 = makeCons(co->gc, v_2313915_25, v_2313917_25);
+Obj v_2313919_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313918_25);
+coraReturn(co, v_2313919_25);
 return;
 }
 case 2:
 {
-Obj v_2313269_25= co->res;
+Obj v_2313913_25= co->res;
 Obj v_val = R[1];
-Obj v_var1 = v_2313269_25;
-Obj v_2313270_25 = makeCons(co->gc, v_var1, Nil);
-Obj v_2313271_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313270_25);
-R[1] = v_2313271_25;
+Obj v_var1 = v_2313913_25;
+Obj v_2313914_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2313915_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313914_25);
+R[1] = v_2313915_25;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj v_2313251_25= co->res;
+Obj v_2313895_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313251_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313895_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj v_2313245_25= co->res;
-Obj v_2313246_25 = primNot(v_2313245_25);
-coraReturn(co, v_2313246_25);
+Obj v_2313889_25= co->res;
+Obj v_2313890_25 = primNot(v_2313889_25);
+coraReturn(co, v_2313890_25);
 return;
 }
 case 2:
 {
-Obj v_2313244_25= co->res;
+Obj v_2313888_25= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313244_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313888_25);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312587_25 = R[1];
-Obj v_2312588_25 = R[2];
-Obj v_2313229_25 = PRIM_EQ(Nil, v_2312588_25);
-if (True == v_2313229_25) {
+Obj v_2313135_25 = R[1];
+Obj v_2313136_25 = R[2];
+Obj v_2313873_25 = PRIM_EQ(Nil, v_2313136_25);
+if (True == v_2313873_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2312590_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2312588_25, v_2312587_25);
-Obj v_2313233_25 = PRIM_ISCONS(v_2312588_25);
-if (True == v_2313233_25) {
-Obj v_2313234_25 = PRIM_CAR(v_2312588_25);
-Obj v_2313235_25 = PRIM_ISCONS(v_2313234_25);
-if (True == v_2313235_25) {
-Obj v_2313236_25 = PRIM_CAR(v_2312588_25);
-Obj v_2313237_25 = PRIM_CAR(v_2313236_25);
-Obj v_x = v_2313237_25;
-Obj v_2313238_25 = PRIM_CAR(v_2312588_25);
-Obj v_2313239_25 = PRIM_CDR(v_2313238_25);
-Obj v_y = v_2313239_25;
-Obj v_2313240_25 = PRIM_CDR(v_2312588_25);
-Obj v_2313241_25 = PRIM_EQ(v_2312587_25, v_x);
-if (True == v_2313241_25) {
-Obj v_2313242_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2313242_25);
+Obj v_2313138_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2313136_25, v_2313135_25);
+Obj v_2313877_25 = PRIM_ISCONS(v_2313136_25);
+if (True == v_2313877_25) {
+Obj v_2313878_25 = PRIM_CAR(v_2313136_25);
+Obj v_2313879_25 = PRIM_ISCONS(v_2313878_25);
+if (True == v_2313879_25) {
+Obj v_2313880_25 = PRIM_CAR(v_2313136_25);
+Obj v_2313881_25 = PRIM_CAR(v_2313880_25);
+Obj v_x = v_2313881_25;
+Obj v_2313882_25 = PRIM_CAR(v_2313136_25);
+Obj v_2313883_25 = PRIM_CDR(v_2313882_25);
+Obj v_y = v_2313883_25;
+Obj v_2313884_25 = PRIM_CDR(v_2313136_25);
+Obj v_2313885_25 = PRIM_EQ(v_2313135_25, v_x);
+if (True == v_2313885_25) {
+Obj v_2313886_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2313886_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312590_25);
+coraCall0(co, v_2313138_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312590_25);
+coraCall0(co, v_2313138_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312590_25);
+coraCall0(co, v_2313138_25);
 return;
 }
 }
@@ -1397,11 +1397,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313230_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313230_25) {
-Obj v_2313231_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313232_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313232_25;
+Obj v_2313874_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313874_25) {
+Obj v_2313875_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313876_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313876_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
@@ -1418,24 +1418,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312582_25 = R[1];
-Obj v_2312583_25 = R[2];
-Obj v_2312584_25 = R[3];
-Obj v_2313148_25 = PRIM_EQ(Nil, v_2312584_25);
-if (True == v_2313148_25) {
+Obj v_2313130_25 = R[1];
+Obj v_2313131_25 = R[2];
+Obj v_2313132_25 = R[3];
+Obj v_2313792_25 = PRIM_EQ(Nil, v_2313132_25);
+if (True == v_2313792_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2312582_25, v_2312583_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313130_25, v_2313131_25);
 return;
 } else {
-Obj v_2313149_25 = PRIM_ISCONS(v_2312584_25);
-if (True == v_2313149_25) {
-Obj v_2313150_25 = PRIM_CAR(v_2312584_25);
-Obj v_import = v_2313150_25;
-Obj v_2313151_25 = PRIM_CDR(v_2312584_25);
-Obj v_more = v_2313151_25;
+Obj v_2313793_25 = PRIM_ISCONS(v_2313132_25);
+if (True == v_2313793_25) {
+Obj v_2313794_25 = PRIM_CAR(v_2313132_25);
+Obj v_import = v_2313794_25;
+Obj v_2313795_25 = PRIM_CDR(v_2313132_25);
+Obj v_more = v_2313795_25;
 R[1] = v_import;
-R[2] = v_2312582_25;
-R[3] = v_2312583_25;
+R[2] = v_2313130_25;
+R[3] = v_2313131_25;
 R[4] = v_more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj v_2313158_25= co->res;
+Obj v_2313802_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313158_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313802_25);
 return;
 }
 case 2:
 {
-Obj v_2313157_25= co->res;
+Obj v_2313801_25= co->res;
 Obj v_import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313157_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313801_25);
 return;
 }
 case 3:
 {
-Obj v_2313156_25= co->res;
+Obj v_2313800_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313156_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313800_25);
 return;
 }
 case 4:
 {
-Obj v_2313155_25= co->res;
+Obj v_2313799_25= co->res;
 Obj v_import = R[1];
-Obj v_2312582_25 = R[2];
-Obj v_2312583_25 = R[3];
+Obj v_2313130_25 = R[2];
+Obj v_2313131_25 = R[3];
 Obj v_more = R[4];
-if (True == v_2313155_25) {
+if (True == v_2313799_25) {
 R[1] = v_import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2312582_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313130_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2312582_25, v_2312583_25, v_more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313130_25, v_2313131_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj v_2313154_25= co->res;
+Obj v_2313798_25= co->res;
 Obj v_import = R[1];
-Obj v_2312582_25 = R[2];
-Obj v_2312583_25 = R[3];
+Obj v_2313130_25 = R[2];
+Obj v_2313131_25 = R[3];
 Obj v_more = R[4];
-Obj v_export = v_2313154_25;
+Obj v_export = v_2313798_25;
 R[1] = v_import;
-R[2] = v_2312582_25;
-R[3] = v_2312583_25;
+R[2] = v_2313130_25;
+R[3] = v_2313131_25;
 R[4] = v_more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2312582_25, v_export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2313130_25, v_export);
 return;
 }
 case 6:
 {
-Obj v_2313153_25= co->res;
+Obj v_2313797_25= co->res;
 Obj v_import = R[1];
-Obj v_2312582_25 = R[2];
-Obj v_2312583_25 = R[3];
+Obj v_2313130_25 = R[2];
+Obj v_2313131_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2312582_25;
-R[3] = v_2312583_25;
+R[2] = v_2313130_25;
+R[3] = v_2313131_25;
 R[4] = v_more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313153_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313797_25, Nil);
 return;
 }
 case 7:
 {
-Obj v_2313152_25= co->res;
+Obj v_2313796_25= co->res;
 Obj v_import = R[1];
-Obj v_2312582_25 = R[2];
-Obj v_2312583_25 = R[3];
+Obj v_2313130_25 = R[2];
+Obj v_2313131_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2312582_25;
-R[3] = v_2312583_25;
+R[2] = v_2313130_25;
+R[3] = v_2313131_25;
 R[4] = v_more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313152_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313796_25);
 return;
 }
 }
@@ -1544,8 +1544,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2313142_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v_2313142_25) {
+Obj v_2313786_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2313786_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1558,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj v_2313146_25= co->res;
+Obj v_2313790_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313146_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313790_25);
 return;
 }
 case 2:
 {
-Obj v_2313145_25= co->res;
+Obj v_2313789_25= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2313145_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2313789_25);
 return;
 }
 case 3:
 {
-Obj v_2313144_25= co->res;
+Obj v_2313788_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313144_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313788_25);
 return;
 }
 case 4:
 {
-Obj v_2313143_25= co->res;
+Obj v_2313787_25= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v_2313143_25) {
+if (True == v_2313787_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1610,26 +1610,26 @@ return;
 }
 case 1:
 {
-Obj v_2313124_25= co->res;
+Obj v_2313768_25= co->res;
 Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2313124_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
+coraCall1(co, v_2313768_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj v_2313123_25= co->res;
+Obj v_2313767_25= co->res;
 Obj v_path = R[1];
 R[1] = v_path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2313123_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2313767_25);
 return;
 }
 case 3:
 {
-Obj v_2313122_25= co->res;
+Obj v_2313766_25= co->res;
 Obj v_sexp = R[1];
-Obj v_path = v_2313122_25;
+Obj v_path = v_2313766_25;
 R[1] = v_path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
@@ -1645,41 +1645,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2313125_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2313769_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v_2313125_25;
+R[3] = v_2313769_25;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v_2313135_25= co->res;
-Obj v_2313125_25 = R[1];
-Obj v_2313136_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2313135_25);
-Obj v_2313137_25 = makeCons(co->gc, v_2313136_25, Nil);
-Obj v_2313138_25 = makeCons(co->gc, v_2313125_25, v_2313137_25);
-Obj v_2313139_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313138_25);
-Obj v_2313140_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2313139_25);
-coraReturn(co, v_2313140_25);
+Obj v_2313779_25= co->res;
+Obj v_2313769_25 = R[1];
+Obj v_2313780_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2313779_25);
+Obj v_2313781_25 = makeCons(co->gc, v_2313780_25, Nil);
+Obj v_2313782_25 = makeCons(co->gc, v_2313769_25, v_2313781_25);
+Obj v_2313783_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313782_25);
+Obj v_2313784_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2313783_25);
+coraReturn(co, v_2313784_25);
 return;
 }
 case 2:
 {
-Obj v_2313128_25= co->res;
+Obj v_2313772_25= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v_2313125_25 = R[3];
-Obj v_2313129_25 = makeCons(co->gc, v_export, Nil);
-Obj v_2313130_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2313129_25);
-Obj v_2313131_25 = makeCons(co->gc, v_2313130_25, Nil);
-Obj v_2313132_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2313131_25);
-Obj v_2313133_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313132_25);
-Obj v_2313134_25 = makeCons(co->gc, v_2313133_25, v_body);
-R[1] = v_2313125_25;
+Obj v_2313769_25 = R[3];
+Obj v_2313773_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2313774_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2313773_25);
+Obj v_2313775_25 = makeCons(co->gc, v_2313774_25, Nil);
+Obj v_2313776_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2313775_25);
+Obj v_2313777_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313776_25);
+Obj v_2313778_25 = makeCons(co->gc, v_2313777_25, v_body);
+R[1] = v_2313769_25;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313128_25, v_2313134_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313772_25, v_2313778_25);
 return;
 }
 }
@@ -1690,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v_2313126_25 = makeCons(co->gc, v_imp, Nil);
-Obj v_2313127_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313126_25);
-coraReturn(co, v_2313127_25);
+Obj v_2313770_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2313771_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313770_25);
+coraReturn(co, v_2313771_25);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312575_25 = R[1];
-Obj v_2312576_25 = R[2];
-Obj v_2312577_25 = R[3];
-Obj v_2312578_25 = R[4];
-Obj v_2312579_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2312577_25, v_2312575_25, v_2312576_25, v_2312578_25);
-Obj v_2313102_25 = PRIM_ISCONS(v_2312575_25);
-if (True == v_2313102_25) {
-Obj v_2313103_25 = PRIM_CAR(v_2312575_25);
-Obj v_2313104_25 = PRIM_ISCONS(v_2313103_25);
-if (True == v_2313104_25) {
-Obj v_2313105_25 = PRIM_CAR(v_2312575_25);
-Obj v_2313106_25 = PRIM_CAR(v_2313105_25);
-Obj v_2313107_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313106_25);
-if (True == v_2313107_25) {
-Obj v_2313108_25 = PRIM_CAR(v_2312575_25);
-Obj v_2313109_25 = PRIM_CDR(v_2313108_25);
-Obj v_2313110_25 = PRIM_ISCONS(v_2313109_25);
-if (True == v_2313110_25) {
-Obj v_2313111_25 = PRIM_CAR(v_2312575_25);
-Obj v_2313112_25 = PRIM_CDR(v_2313111_25);
-Obj v_2313113_25 = PRIM_CAR(v_2313112_25);
-Obj v_lib = v_2313113_25;
-Obj v_2313114_25 = PRIM_CAR(v_2312575_25);
-Obj v_2313115_25 = PRIM_CDR(v_2313114_25);
-Obj v_2313116_25 = PRIM_CDR(v_2313115_25);
-Obj v_2313117_25 = PRIM_EQ(Nil, v_2313116_25);
-if (True == v_2313117_25) {
-Obj v_2313118_25 = PRIM_CDR(v_2312575_25);
-Obj v_rest = v_2313118_25;
-Obj v_2313119_25 = makeCons(co->gc, v_lib, v_2312576_25);
+Obj v_2313123_25 = R[1];
+Obj v_2313124_25 = R[2];
+Obj v_2313125_25 = R[3];
+Obj v_2313126_25 = R[4];
+Obj v_2313127_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2313125_25, v_2313123_25, v_2313124_25, v_2313126_25);
+Obj v_2313746_25 = PRIM_ISCONS(v_2313123_25);
+if (True == v_2313746_25) {
+Obj v_2313747_25 = PRIM_CAR(v_2313123_25);
+Obj v_2313748_25 = PRIM_ISCONS(v_2313747_25);
+if (True == v_2313748_25) {
+Obj v_2313749_25 = PRIM_CAR(v_2313123_25);
+Obj v_2313750_25 = PRIM_CAR(v_2313749_25);
+Obj v_2313751_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313750_25);
+if (True == v_2313751_25) {
+Obj v_2313752_25 = PRIM_CAR(v_2313123_25);
+Obj v_2313753_25 = PRIM_CDR(v_2313752_25);
+Obj v_2313754_25 = PRIM_ISCONS(v_2313753_25);
+if (True == v_2313754_25) {
+Obj v_2313755_25 = PRIM_CAR(v_2313123_25);
+Obj v_2313756_25 = PRIM_CDR(v_2313755_25);
+Obj v_2313757_25 = PRIM_CAR(v_2313756_25);
+Obj v_lib = v_2313757_25;
+Obj v_2313758_25 = PRIM_CAR(v_2313123_25);
+Obj v_2313759_25 = PRIM_CDR(v_2313758_25);
+Obj v_2313760_25 = PRIM_CDR(v_2313759_25);
+Obj v_2313761_25 = PRIM_EQ(Nil, v_2313760_25);
+if (True == v_2313761_25) {
+Obj v_2313762_25 = PRIM_CDR(v_2313123_25);
+Obj v_rest = v_2313762_25;
+Obj v_2313763_25 = makeCons(co->gc, v_lib, v_2313124_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2313119_25, v_2312577_25, v_2312578_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2313763_25, v_2313125_25, v_2313126_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312579_25);
+coraCall0(co, v_2313127_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312579_25);
+coraCall0(co, v_2313127_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312579_25);
+coraCall0(co, v_2313127_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312579_25);
+coraCall0(co, v_2313127_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312579_25);
+coraCall0(co, v_2313127_25);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312580_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313093_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2313093_25) {
-Obj v_2313094_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313095_25 = PRIM_ISCONS(v_2313094_25);
-if (True == v_2313095_25) {
-Obj v_2313096_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313097_25 = PRIM_CAR(v_2313096_25);
-Obj v_2313098_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2313097_25);
-if (True == v_2313098_25) {
-Obj v_2313099_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313100_25 = PRIM_CDR(v_2313099_25);
-Obj v_more = v_2313100_25;
-Obj v_2313101_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_rest = v_2313101_25;
+Obj v_2313128_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2313737_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313737_25) {
+Obj v_2313738_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313739_25 = PRIM_ISCONS(v_2313738_25);
+if (True == v_2313739_25) {
+Obj v_2313740_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313741_25 = PRIM_CAR(v_2313740_25);
+Obj v_2313742_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2313741_25);
+if (True == v_2313742_25) {
+Obj v_2313743_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313744_25 = PRIM_CDR(v_2313743_25);
+Obj v_more = v_2313744_25;
+Obj v_2313745_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2313745_25;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312580_25);
+coraCall0(co, v_2313128_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312580_25);
+coraCall0(co, v_2313128_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312580_25);
+coraCall0(co, v_2313128_25);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj v_2313092_25= co->res;
+Obj v_2313736_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v_2313092_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2313736_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1848,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj v_2313090_25= co->res;
-Obj v_2313089_25 = R[1];
+Obj v_2313734_25= co->res;
+Obj v_2313733_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2313089_25, v_2313090_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2313733_25, v_2313734_25);
 return;
 }
 case 2:
 {
-Obj v_2313089_25= co->res;
+Obj v_2313733_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2313089_25;
+R[1] = v_2313733_25;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1880,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj v_2313078_25= co->res;
-Obj v_2313077_25 = R[1];
+Obj v_2313722_25= co->res;
+Obj v_2313721_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2313079_25 = makeCons(co->gc, v_2313078_25, Nil);
-Obj v_2313080_25 = makeCons(co->gc, v_2313077_25, v_2313079_25);
-Obj v_2313081_25 = makeCons(co->gc, v_fn, v_2313080_25);
-coraReturn(co, v_2313081_25);
+Obj v_2313723_25 = makeCons(co->gc, v_2313722_25, Nil);
+Obj v_2313724_25 = makeCons(co->gc, v_2313721_25, v_2313723_25);
+Obj v_2313725_25 = makeCons(co->gc, v_fn, v_2313724_25);
+coraReturn(co, v_2313725_25);
 return;
 }
 case 2:
 {
-Obj v_2313084_25= co->res;
-Obj v_2313082_25 = R[1];
+Obj v_2313728_25= co->res;
+Obj v_2313726_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2313085_25 = makeCons(co->gc, v_2313084_25, Nil);
-Obj v_2313086_25 = makeCons(co->gc, v_2313082_25, v_2313085_25);
-Obj v_2313087_25 = makeCons(co->gc, v_fn, v_2313086_25);
-coraReturn(co, v_2313087_25);
+Obj v_2313729_25 = makeCons(co->gc, v_2313728_25, Nil);
+Obj v_2313730_25 = makeCons(co->gc, v_2313726_25, v_2313729_25);
+Obj v_2313731_25 = makeCons(co->gc, v_fn, v_2313730_25);
+coraReturn(co, v_2313731_25);
 return;
 }
 case 3:
 {
-Obj v_2313076_25= co->res;
+Obj v_2313720_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v_2313076_25) {
-Obj v_2313077_25 = PRIM_CAR(v_arglist);
-R[1] = v_2313077_25;
+if (True == v_2313720_25) {
+Obj v_2313721_25 = PRIM_CAR(v_arglist);
+R[1] = v_2313721_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v_2313082_25 = PRIM_CAR(v_arglist);
-Obj v_2313083_25 = PRIM_CDR(v_arglist);
-R[1] = v_2313082_25;
+Obj v_2313726_25 = PRIM_CAR(v_arglist);
+Obj v_2313727_25 = PRIM_CDR(v_arglist);
+R[1] = v_2313726_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2313083_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2313727_25);
 return;
 }
 }
 case 4:
 {
-Obj v_2313075_25= co->res;
+Obj v_2313719_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313075_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313719_25);
 return;
 }
 }
@@ -1947,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj v_2313073_25= co->res;
+Obj v_2313717_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2313073_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2313717_25);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312570_25 = R[1];
-Obj v_2313053_25 = primIsSymbol(v_2312570_25);
-if (True == v_2313053_25) {
-Obj v_2313054_25 = makeCons(co->gc, v_2312570_25, Nil);
-Obj v_2313055_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313054_25);
-coraReturn(co, v_2313055_25);
-return;
-} else {
-Obj v_2312572_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2312570_25);
-Obj v_2313062_25 = PRIM_ISCONS(v_2312570_25);
-if (True == v_2313062_25) {
-Obj v_2313063_25 = PRIM_CAR(v_2312570_25);
-Obj v_2313064_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2313063_25);
-if (True == v_2313064_25) {
-Obj v_2313065_25 = PRIM_CDR(v_2312570_25);
-Obj v_2313066_25 = PRIM_ISCONS(v_2313065_25);
-if (True == v_2313066_25) {
-Obj v_2313067_25 = PRIM_CDR(v_2312570_25);
-Obj v_2313068_25 = PRIM_CAR(v_2313067_25);
-Obj v_x = v_2313068_25;
-Obj v_2313069_25 = PRIM_CDR(v_2312570_25);
-Obj v_2313070_25 = PRIM_CDR(v_2313069_25);
-Obj v_2313071_25 = PRIM_EQ(Nil, v_2313070_25);
-if (True == v_2313071_25) {
+Obj v_2313118_25 = R[1];
+Obj v_2313697_25 = primIsSymbol(v_2313118_25);
+if (True == v_2313697_25) {
+Obj v_2313698_25 = makeCons(co->gc, v_2313118_25, Nil);
+Obj v_2313699_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313698_25);
+coraReturn(co, v_2313699_25);
+return;
+} else {
+Obj v_2313120_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2313118_25);
+Obj v_2313706_25 = PRIM_ISCONS(v_2313118_25);
+if (True == v_2313706_25) {
+Obj v_2313707_25 = PRIM_CAR(v_2313118_25);
+Obj v_2313708_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2313707_25);
+if (True == v_2313708_25) {
+Obj v_2313709_25 = PRIM_CDR(v_2313118_25);
+Obj v_2313710_25 = PRIM_ISCONS(v_2313709_25);
+if (True == v_2313710_25) {
+Obj v_2313711_25 = PRIM_CDR(v_2313118_25);
+Obj v_2313712_25 = PRIM_CAR(v_2313711_25);
+Obj v_x = v_2313712_25;
+Obj v_2313713_25 = PRIM_CDR(v_2313118_25);
+Obj v_2313714_25 = PRIM_CDR(v_2313713_25);
+Obj v_2313715_25 = PRIM_EQ(Nil, v_2313714_25);
+if (True == v_2313715_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312572_25);
+coraCall0(co, v_2313120_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312572_25);
+coraCall0(co, v_2313120_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312572_25);
+coraCall0(co, v_2313120_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312572_25);
+coraCall0(co, v_2313120_25);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313056_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313056_25) {
-Obj v_2313057_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313057_25;
-Obj v_2313058_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2313058_25;
-Obj v_2313059_25 = makeCons(co->gc, v_x, v_more);
+Obj v_2313700_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313700_25) {
+Obj v_2313701_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313701_25;
+Obj v_2313702_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2313702_25;
+Obj v_2313703_25 = makeCons(co->gc, v_x, v_more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2313059_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2313703_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj v_2313060_25= co->res;
-Obj v_2313061_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313060_25);
-coraReturn(co, v_2313061_25);
+Obj v_2313704_25= co->res;
+Obj v_2313705_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313704_25);
+coraReturn(co, v_2313705_25);
 return;
 }
 }
@@ -2044,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313051_25 = PRIM_CDR(v_exp);
+Obj v_2313695_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2313051_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2313695_25);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312566_25 = R[1];
-Obj v_2312567_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2312566_25);
-Obj v_2313046_25 = PRIM_ISCONS(v_2312566_25);
-if (True == v_2313046_25) {
-Obj v_2313047_25 = PRIM_CAR(v_2312566_25);
-Obj v_x = v_2313047_25;
-Obj v_2313048_25 = PRIM_CDR(v_2312566_25);
-Obj v_2313049_25 = PRIM_EQ(Nil, v_2313048_25);
-if (True == v_2313049_25) {
+Obj v_2313114_25 = R[1];
+Obj v_2313115_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2313114_25);
+Obj v_2313690_25 = PRIM_ISCONS(v_2313114_25);
+if (True == v_2313690_25) {
+Obj v_2313691_25 = PRIM_CAR(v_2313114_25);
+Obj v_x = v_2313691_25;
+Obj v_2313692_25 = PRIM_CDR(v_2313114_25);
+Obj v_2313693_25 = PRIM_EQ(Nil, v_2313692_25);
+if (True == v_2313693_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312567_25);
+coraCall0(co, v_2313115_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312567_25);
+coraCall0(co, v_2313115_25);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312568_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v_2313034_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313034_25) {
-Obj v_2313035_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313035_25;
-Obj v_2313036_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313037_25 = PRIM_ISCONS(v_2313036_25);
-if (True == v_2313037_25) {
-Obj v_2313038_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313039_25 = PRIM_CAR(v_2313038_25);
-Obj v_y = v_2313039_25;
-Obj v_2313040_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313041_25 = PRIM_CDR(v_2313040_25);
-Obj v_2313042_25 = PRIM_EQ(Nil, v_2313041_25);
-if (True == v_2313042_25) {
-Obj v_2313043_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2313044_25 = makeCons(co->gc, v_x, v_2313043_25);
-Obj v_2313045_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313044_25);
-coraReturn(co, v_2313045_25);
+Obj v_2313116_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v_2313678_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313678_25) {
+Obj v_2313679_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313679_25;
+Obj v_2313680_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313681_25 = PRIM_ISCONS(v_2313680_25);
+if (True == v_2313681_25) {
+Obj v_2313682_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313683_25 = PRIM_CAR(v_2313682_25);
+Obj v_y = v_2313683_25;
+Obj v_2313684_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313685_25 = PRIM_CDR(v_2313684_25);
+Obj v_2313686_25 = PRIM_EQ(Nil, v_2313685_25);
+if (True == v_2313686_25) {
+Obj v_2313687_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2313688_25 = makeCons(co->gc, v_x, v_2313687_25);
+Obj v_2313689_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313688_25);
+coraReturn(co, v_2313689_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312568_25);
+coraCall0(co, v_2313116_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312568_25);
+coraCall0(co, v_2313116_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312568_25);
+coraCall0(co, v_2313116_25);
 return;
 }
 }
@@ -2128,12 +2128,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313027_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313027_25) {
-Obj v_2313028_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313028_25;
-Obj v_2313029_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313029_25;
+Obj v_2313671_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313671_25) {
+Obj v_2313672_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313672_25;
+Obj v_2313673_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313673_25;
 R[1] = v_x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj v_2313030_25= co->res;
+Obj v_2313674_25= co->res;
 Obj v_x = R[1];
-Obj v_2313031_25 = makeCons(co->gc, v_2313030_25, Nil);
-Obj v_2313032_25 = makeCons(co->gc, v_x, v_2313031_25);
-Obj v_2313033_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313032_25);
-coraReturn(co, v_2313033_25);
+Obj v_2313675_25 = makeCons(co->gc, v_2313674_25, Nil);
+Obj v_2313676_25 = makeCons(co->gc, v_x, v_2313675_25);
+Obj v_2313677_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313676_25);
+coraReturn(co, v_2313677_25);
 return;
 }
 }
@@ -2168,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj v_2313025_25= co->res;
+Obj v_2313669_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2313025_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2313669_25);
 return;
 }
 case 2:
 {
-Obj v_2313024_25= co->res;
+Obj v_2313668_25= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2313024_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2313668_25);
 return;
 }
 }
@@ -2218,25 +2218,25 @@ return;
 }
 case 1:
 {
-Obj v_2313013_25= co->res;
+Obj v_2313657_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2313014_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
-Obj v_2313015_25 = makeCons(co->gc, v_2313014_25, v_body);
-Obj v_2313016_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2313015_25);
-Obj v_2313017_25 = makeCons(co->gc, v_2313016_25, Nil);
-Obj v_2313018_25 = makeCons(co->gc, v_args, v_2313017_25);
-Obj v_2313019_25 = makeCons(co->gc, v_2313013_25, v_2313018_25);
-Obj v_2313020_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2313019_25);
-coraReturn(co, v_2313020_25);
+Obj v_2313658_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
+Obj v_2313659_25 = makeCons(co->gc, v_2313658_25, v_body);
+Obj v_2313660_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2313659_25);
+Obj v_2313661_25 = makeCons(co->gc, v_2313660_25, Nil);
+Obj v_2313662_25 = makeCons(co->gc, v_args, v_2313661_25);
+Obj v_2313663_25 = makeCons(co->gc, v_2313657_25, v_2313662_25);
+Obj v_2313664_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2313663_25);
+coraReturn(co, v_2313664_25);
 return;
 }
 case 2:
 {
-Obj v_2313012_25= co->res;
+Obj v_2313656_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_args = v_2313012_25;
+Obj v_args = v_2313656_25;
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun60, 1, R);
@@ -2245,10 +2245,10 @@ return;
 }
 case 3:
 {
-Obj v_2313011_25= co->res;
+Obj v_2313655_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_nargs = v_2313011_25;
+Obj v_nargs = v_2313655_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 2, R);
@@ -2257,9 +2257,9 @@ return;
 }
 case 4:
 {
-Obj v_2313010_25= co->res;
+Obj v_2313654_25= co->res;
 Obj v_exp = R[1];
-Obj v_body = v_2313010_25;
+Obj v_body = v_2313654_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 3, R);
@@ -2268,11 +2268,11 @@ return;
 }
 case 5:
 {
-Obj v_2313009_25= co->res;
+Obj v_2313653_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2313009_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2313653_25);
 return;
 }
 }
@@ -2283,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v_2313003_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v_2313003_25) {
+Obj v_2313647_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2313647_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2313004_25 = primGenSym(co);
-Obj v_2313005_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v_2313004_25;
+Obj v_2313648_25 = primGenSym(co);
+Obj v_2313649_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2313648_25;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2313005_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2313649_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313006_25= co->res;
-Obj v_2313004_25 = R[1];
-Obj v_2313007_25 = makeCons(co->gc, v_2313004_25, v_2313006_25);
-coraReturn(co, v_2313007_25);
+Obj v_2313650_25= co->res;
+Obj v_2313648_25 = R[1];
+Obj v_2313651_25 = makeCons(co->gc, v_2313648_25, v_2313650_25);
+coraReturn(co, v_2313651_25);
 return;
 }
 }
@@ -2318,10 +2318,10 @@ return;
 }
 case 1:
 {
-Obj v_2313000_25= co->res;
+Obj v_2313644_25= co->res;
 Obj v_n = R[1];
-Obj v_2313001_25 = primNot(v_2313000_25);
-if (True == v_2313001_25) {
+Obj v_2313645_25 = primNot(v_2313644_25);
+if (True == v_2313645_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2332,29 +2332,29 @@ return;
 }
 case 2:
 {
-Obj v_2312999_25= co->res;
+Obj v_2313643_25= co->res;
 Obj v_n = R[1];
 R[1] = v_n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312999_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313643_25);
 return;
 }
 case 3:
 {
-Obj v_2312994_25= co->res;
-Obj v_counts = v_2312994_25;
-Obj v_2312995_25 = PRIM_CAR(v_counts);
-Obj v_n = v_2312995_25;
-Obj v_2312998_25 = PRIM_CDR(v_counts);
+Obj v_2313638_25= co->res;
+Obj v_counts = v_2313638_25;
+Obj v_2313639_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2313639_25;
+Obj v_2313642_25 = PRIM_CDR(v_counts);
 R[1] = v_n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2312998_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2313642_25);
 return;
 }
 case 4:
 {
-Obj v_2312992_25= co->res;
-Obj v_pats = v_2312992_25;
+Obj v_2313636_25= co->res;
+Obj v_pats = v_2313636_25;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
 return;
@@ -2367,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312996_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v_2312997_25 = primNot(v_2312996_25);
-coraReturn(co, v_2312997_25);
+Obj v_2313640_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2313641_25 = primNot(v_2313640_25);
+coraReturn(co, v_2313641_25);
 return;
 }
 }
@@ -2380,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312993_25 = PRIM_CDR(v_x);
+Obj v_2313637_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2312993_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2313637_25);
 return;
 }
 }
@@ -2394,25 +2394,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v_2312986_25 = PRIM_EQ(v_l1, Nil);
-if (True == v_2312986_25) {
+Obj v_2313630_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2313630_25) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v_2312987_25 = PRIM_CAR(v_l1);
-Obj v_2312988_25 = PRIM_CDR(v_l1);
-R[1] = v_2312987_25;
+Obj v_2313631_25 = PRIM_CAR(v_l1);
+Obj v_2313632_25 = PRIM_CDR(v_l1);
+R[1] = v_2313631_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2312988_25, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313632_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v_2312989_25= co->res;
-Obj v_2312987_25 = R[1];
-Obj v_2312990_25 = makeCons(co->gc, v_2312987_25, v_2312989_25);
-coraReturn(co, v_2312990_25);
+Obj v_2313633_25= co->res;
+Obj v_2313631_25 = R[1];
+Obj v_2313634_25 = makeCons(co->gc, v_2313631_25, v_2313633_25);
+coraReturn(co, v_2313634_25);
 return;
 }
 }
@@ -2438,14 +2438,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v_2312977_25 = PRIM_ISCONS(v_l);
-if (True == v_2312977_25) {
-Obj v_2312978_25 = PRIM_CAR(v_l);
+Obj v_2313621_25 = PRIM_ISCONS(v_l);
+if (True == v_2313621_25) {
+Obj v_2313622_25 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v_2312978_25);
+coraCall1(co, v_fn, v_2313622_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -2455,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj v_2312979_25= co->res;
+Obj v_2313623_25= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v_2312979_25) {
-Obj v_2312980_25 = PRIM_CAR(v_l);
-Obj v_2312981_25 = makeCons(co->gc, v_2312980_25, v_res);
-Obj v_2312982_25 = PRIM_CDR(v_l);
+if (True == v_2313623_25) {
+Obj v_2313624_25 = PRIM_CAR(v_l);
+Obj v_2313625_25 = makeCons(co->gc, v_2313624_25, v_res);
+Obj v_2313626_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2312981_25, v_fn, v_2312982_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2313625_25, v_fn, v_2313626_25);
 return;
 } else {
-Obj v_2312983_25 = PRIM_CDR(v_l);
+Obj v_2313627_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2312983_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2313627_25);
 return;
 }
 }
@@ -2494,15 +2494,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v_2312972_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2312972_25) {
+Obj v_2313616_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2313616_25) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v_2312973_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v_2312974_25 = PRIM_CDR(v_l);
+Obj v_2313617_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2313618_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2312973_25, v_2312974_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2313617_25, v_2313618_25);
 return;
 }
 }
@@ -2523,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj v_2312970_25= co->res;
-Obj v_2312969_25 = R[1];
+Obj v_2313614_25= co->res;
+Obj v_2313613_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2312969_25, v_2312970_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2313613_25, v_2313614_25);
 return;
 }
 case 2:
 {
-Obj v_2312967_25= co->res;
+Obj v_2313611_25= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v_2312967_25) {
+if (True == v_2313611_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v_2312968_25 = PRIM_CAR(v_rules);
-Obj v_2312969_25 = makeCons(co->gc, v_2312968_25, v_res);
-R[1] = v_2312969_25;
+Obj v_2313612_25 = PRIM_CAR(v_rules);
+Obj v_2313613_25 = makeCons(co->gc, v_2313612_25, v_res);
+R[1] = v_2313613_25;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2569,48 +2569,48 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v_2312914_25 = PRIM_EQ(Nil, v_input);
-if (True == v_2312914_25) {
+Obj v_2313558_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2313558_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v_2312563_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v_2312932_25 = PRIM_ISCONS(v_input);
-if (True == v_2312932_25) {
-Obj v_2312933_25 = PRIM_CAR(v_input);
-Obj v_2312934_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312933_25);
-if (True == v_2312934_25) {
-Obj v_2312935_25 = PRIM_CDR(v_input);
-Obj v_2312936_25 = PRIM_ISCONS(v_2312935_25);
-if (True == v_2312936_25) {
-Obj v_2312937_25 = PRIM_CDR(v_input);
-Obj v_2312938_25 = PRIM_CAR(v_2312937_25);
-Obj v_act = v_2312938_25;
-Obj v_2312939_25 = PRIM_CDR(v_input);
-Obj v_2312940_25 = PRIM_CDR(v_2312939_25);
-Obj v_2312941_25 = PRIM_ISCONS(v_2312940_25);
-if (True == v_2312941_25) {
-Obj v_2312942_25 = PRIM_CDR(v_input);
-Obj v_2312943_25 = PRIM_CDR(v_2312942_25);
-Obj v_2312944_25 = PRIM_CAR(v_2312943_25);
-Obj v_2312945_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2312944_25);
-if (True == v_2312945_25) {
-Obj v_2312946_25 = PRIM_CDR(v_input);
-Obj v_2312947_25 = PRIM_CDR(v_2312946_25);
-Obj v_2312948_25 = PRIM_CDR(v_2312947_25);
-Obj v_2312949_25 = PRIM_ISCONS(v_2312948_25);
-if (True == v_2312949_25) {
-Obj v_2312950_25 = PRIM_CDR(v_input);
-Obj v_2312951_25 = PRIM_CDR(v_2312950_25);
-Obj v_2312952_25 = PRIM_CDR(v_2312951_25);
-Obj v_2312953_25 = PRIM_CAR(v_2312952_25);
-Obj v_pred = v_2312953_25;
-Obj v_2312954_25 = PRIM_CDR(v_input);
-Obj v_2312955_25 = PRIM_CDR(v_2312954_25);
-Obj v_2312956_25 = PRIM_CDR(v_2312955_25);
-Obj v_2312957_25 = PRIM_CDR(v_2312956_25);
-Obj v_remain = v_2312957_25;
+Obj v_2313111_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v_2313576_25 = PRIM_ISCONS(v_input);
+if (True == v_2313576_25) {
+Obj v_2313577_25 = PRIM_CAR(v_input);
+Obj v_2313578_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313577_25);
+if (True == v_2313578_25) {
+Obj v_2313579_25 = PRIM_CDR(v_input);
+Obj v_2313580_25 = PRIM_ISCONS(v_2313579_25);
+if (True == v_2313580_25) {
+Obj v_2313581_25 = PRIM_CDR(v_input);
+Obj v_2313582_25 = PRIM_CAR(v_2313581_25);
+Obj v_act = v_2313582_25;
+Obj v_2313583_25 = PRIM_CDR(v_input);
+Obj v_2313584_25 = PRIM_CDR(v_2313583_25);
+Obj v_2313585_25 = PRIM_ISCONS(v_2313584_25);
+if (True == v_2313585_25) {
+Obj v_2313586_25 = PRIM_CDR(v_input);
+Obj v_2313587_25 = PRIM_CDR(v_2313586_25);
+Obj v_2313588_25 = PRIM_CAR(v_2313587_25);
+Obj v_2313589_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2313588_25);
+if (True == v_2313589_25) {
+Obj v_2313590_25 = PRIM_CDR(v_input);
+Obj v_2313591_25 = PRIM_CDR(v_2313590_25);
+Obj v_2313592_25 = PRIM_CDR(v_2313591_25);
+Obj v_2313593_25 = PRIM_ISCONS(v_2313592_25);
+if (True == v_2313593_25) {
+Obj v_2313594_25 = PRIM_CDR(v_input);
+Obj v_2313595_25 = PRIM_CDR(v_2313594_25);
+Obj v_2313596_25 = PRIM_CDR(v_2313595_25);
+Obj v_2313597_25 = PRIM_CAR(v_2313596_25);
+Obj v_pred = v_2313597_25;
+Obj v_2313598_25 = PRIM_CDR(v_input);
+Obj v_2313599_25 = PRIM_CDR(v_2313598_25);
+Obj v_2313600_25 = PRIM_CDR(v_2313599_25);
+Obj v_2313601_25 = PRIM_CDR(v_2313600_25);
+Obj v_remain = v_2313601_25;
 R[1] = v_act;
 R[2] = v_pred;
 R[3] = v_result;
@@ -2620,52 +2620,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312563_25);
+coraCall0(co, v_2313111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312563_25);
+coraCall0(co, v_2313111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312563_25);
+coraCall0(co, v_2313111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312563_25);
+coraCall0(co, v_2313111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312563_25);
+coraCall0(co, v_2313111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312563_25);
+coraCall0(co, v_2313111_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312958_25= co->res;
+Obj v_2313602_25= co->res;
 Obj v_act = R[1];
 Obj v_pred = R[2];
 Obj v_result = R[3];
 Obj v_remain = R[4];
-Obj v_2312959_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312958_25);
-Obj v_pat = v_2312959_25;
-Obj v_2312960_25 = makeCons(co->gc, v_act, Nil);
-Obj v_2312961_25 = makeCons(co->gc, v_pred, v_2312960_25);
-Obj v_2312962_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2312961_25);
-Obj v_2312963_25 = makeCons(co->gc, v_pat, v_result);
-Obj v_2312964_25 = makeCons(co->gc, v_2312962_25, v_2312963_25);
+Obj v_2313603_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313602_25);
+Obj v_pat = v_2313603_25;
+Obj v_2313604_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2313605_25 = makeCons(co->gc, v_pred, v_2313604_25);
+Obj v_2313606_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2313605_25);
+Obj v_2313607_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2313608_25 = makeCons(co->gc, v_2313606_25, v_2313607_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312964_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2313608_25);
 return;
 }
 }
@@ -2675,21 +2675,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312564_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2312919_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312919_25) {
-Obj v_2312920_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2312921_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2312920_25);
-if (True == v_2312921_25) {
-Obj v_2312922_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312923_25 = PRIM_ISCONS(v_2312922_25);
-if (True == v_2312923_25) {
-Obj v_2312924_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312925_25 = PRIM_CAR(v_2312924_25);
-Obj v_act = v_2312925_25;
-Obj v_2312926_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2312927_25 = PRIM_CDR(v_2312926_25);
-Obj v_remain = v_2312927_25;
+Obj v_2313112_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2313563_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313563_25) {
+Obj v_2313564_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313565_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313564_25);
+if (True == v_2313565_25) {
+Obj v_2313566_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313567_25 = PRIM_ISCONS(v_2313566_25);
+if (True == v_2313567_25) {
+Obj v_2313568_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313569_25 = PRIM_CAR(v_2313568_25);
+Obj v_act = v_2313569_25;
+Obj v_2313570_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313571_25 = PRIM_CDR(v_2313570_25);
+Obj v_remain = v_2313571_25;
 R[1] = v_act;
 R[2] = v_remain;
 saveCont(co, clofun47, 1, R);
@@ -2697,31 +2697,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312564_25);
+coraCall0(co, v_2313112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312564_25);
+coraCall0(co, v_2313112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2312564_25);
+coraCall0(co, v_2313112_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2312928_25= co->res;
+Obj v_2313572_25= co->res;
 Obj v_act = R[1];
 Obj v_remain = R[2];
-Obj v_2312929_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2312928_25);
-Obj v_pat = v_2312929_25;
-Obj v_2312930_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
-Obj v_2312931_25 = makeCons(co->gc, v_act, v_2312930_25);
+Obj v_2313573_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313572_25);
+Obj v_pat = v_2313573_25;
+Obj v_2313574_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2313575_25 = makeCons(co->gc, v_act, v_2313574_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2312931_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2313575_25);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312915_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2312915_25) {
-Obj v_2312916_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2312916_25;
-Obj v_2312917_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2312917_25;
-Obj v_2312918_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
+Obj v_2313559_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313559_25) {
+Obj v_2313560_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313560_25;
+Obj v_2313561_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313561_25;
+Obj v_2313562_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2312918_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2313562_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2774,35 +2774,35 @@ return;
 }
 case 1:
 {
-Obj v_2312901_25= co->res;
+Obj v_2313545_25= co->res;
 Obj v_value = R[1];
-Obj v_rules = v_2312901_25;
-Obj v_2312614_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
-Obj v_2312908_25 = PRIM_ISCONS(v_value);
-if (True == v_2312908_25) {
-Obj v_2312909_25 = PRIM_CAR(v_value);
-Obj v_2312910_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2312909_25);
-Obj v_2312911_25 = primNot(v_2312910_25);
-if (True == v_2312911_25) {
+Obj v_rules = v_2313545_25;
+Obj v_2313207_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
+Obj v_2313552_25 = PRIM_ISCONS(v_value);
+if (True == v_2313552_25) {
+Obj v_2313553_25 = PRIM_CAR(v_value);
+Obj v_2313554_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2313553_25);
+Obj v_2313555_25 = primNot(v_2313554_25);
+if (True == v_2313555_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312614_25, True);
+coraCall1(co, v_2313207_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312614_25, False);
+coraCall1(co, v_2313207_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312614_25, False);
+coraCall1(co, v_2313207_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312900_25= co->res;
+Obj v_2313544_25= co->res;
 Obj v_exp = R[1];
-Obj v_value = v_2312900_25;
+Obj v_value = v_2313544_25;
 R[1] = v_value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
@@ -2810,11 +2810,11 @@ return;
 }
 case 3:
 {
-Obj v_2312899_25= co->res;
+Obj v_2313543_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2312899_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2313543_25);
 return;
 }
 }
@@ -2824,10 +2824,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312615_25 = R[1];
-if (True == v_2312615_25) {
-Obj v_2312902_25 = primGenSym(co);
-Obj v_val = v_2312902_25;
+Obj v_2313208_25 = R[1];
+if (True == v_2313208_25) {
+Obj v_2313546_25 = primGenSym(co);
+Obj v_val = v_2313546_25;
 R[1] = v_val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj v_2312903_25= co->res;
+Obj v_2313547_25= co->res;
 Obj v_val = R[1];
-Obj v_2312904_25 = makeCons(co->gc, v_2312903_25, Nil);
-Obj v_2312905_25 = makeCons(co->gc, closureRef(R[0], 0), v_2312904_25);
-Obj v_2312906_25 = makeCons(co->gc, v_val, v_2312905_25);
-Obj v_2312907_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312906_25);
-coraReturn(co, v_2312907_25);
+Obj v_2313548_25 = makeCons(co->gc, v_2313547_25, Nil);
+Obj v_2313549_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313548_25);
+Obj v_2313550_25 = makeCons(co->gc, v_val, v_2313549_25);
+Obj v_2313551_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313550_25);
+coraReturn(co, v_2313551_25);
 return;
 }
 }
@@ -2866,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj v_2312897_25= co->res;
-Obj v_2312612_25 = R[1];
-if (True == v_2312897_25) {
+Obj v_2313541_25= co->res;
+Obj v_2313203_25 = R[1];
+if (True == v_2313541_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312612_25, True);
+coraCall1(co, v_2313203_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312612_25, False);
+coraCall1(co, v_2313203_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312895_25= co->res;
+Obj v_2313539_25= co->res;
 Obj v_rules = R[1];
-Obj v_2312612_25 = R[2];
-if (True == v_2312895_25) {
-Obj v_2312896_25 = PRIM_CDR(v_rules);
-R[1] = v_2312612_25;
+Obj v_2313203_25 = R[2];
+if (True == v_2313539_25) {
+Obj v_2313540_25 = PRIM_CDR(v_rules);
+R[1] = v_2313203_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2312896_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2313540_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312612_25, False);
+coraCall1(co, v_2313203_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2312877_25= co->res;
+Obj v_2313521_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v_2312877_25) {
-Obj v_2312878_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v_2312879_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312878_25);
-coraReturn(co, v_2312879_25);
+if (True == v_2313521_25) {
+Obj v_2313522_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2313523_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313522_25);
+coraReturn(co, v_2313523_25);
 return;
 } else {
-Obj v_2312612_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v_2313203_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v_2312612_25;
+R[2] = v_2313203_25;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2921,12 +2921,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312613_25 = R[1];
-if (True == v_2312613_25) {
-Obj v_2312880_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_pat = v_2312880_25;
-Obj v_2312881_25 = primGenSym(co);
-Obj v_cc = v_2312881_25;
+Obj v_2313204_25 = R[1];
+if (True == v_2313204_25) {
+Obj v_2313524_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2313524_25;
+Obj v_2313525_25 = primGenSym(co);
+Obj v_cc = v_2313525_25;
 R[1] = v_pat;
 R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
@@ -2940,49 +2940,49 @@ return;
 }
 case 1:
 {
-Obj v_2312887_25= co->res;
+Obj v_2313531_25= co->res;
 Obj v_curr = R[1];
 Obj v_cc = R[2];
-Obj v_rest = v_2312887_25;
-Obj v_2312888_25 = makeCons(co->gc, v_rest, Nil);
-Obj v_2312889_25 = makeCons(co->gc, Nil, v_2312888_25);
-Obj v_2312890_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312889_25);
-Obj v_2312891_25 = makeCons(co->gc, v_curr, Nil);
-Obj v_2312892_25 = makeCons(co->gc, v_2312890_25, v_2312891_25);
-Obj v_2312893_25 = makeCons(co->gc, v_cc, v_2312892_25);
-Obj v_2312894_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312893_25);
-coraReturn(co, v_2312894_25);
+Obj v_rest = v_2313531_25;
+Obj v_2313532_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2313533_25 = makeCons(co->gc, Nil, v_2313532_25);
+Obj v_2313534_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313533_25);
+Obj v_2313535_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2313536_25 = makeCons(co->gc, v_2313534_25, v_2313535_25);
+Obj v_2313537_25 = makeCons(co->gc, v_cc, v_2313536_25);
+Obj v_2313538_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313537_25);
+coraReturn(co, v_2313538_25);
 return;
 }
 case 2:
 {
-Obj v_2312884_25= co->res;
+Obj v_2313528_25= co->res;
 Obj v_cc = R[1];
-Obj v_curr = v_2312884_25;
-Obj v_2312885_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2312886_25 = PRIM_CDR(v_2312885_25);
+Obj v_curr = v_2313528_25;
+Obj v_2313529_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2313530_25 = PRIM_CDR(v_2313529_25);
 R[1] = v_curr;
 R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2312886_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2313530_25);
 return;
 }
 case 3:
 {
-Obj v_2312883_25= co->res;
+Obj v_2313527_25= co->res;
 Obj v_action = R[1];
 Obj v_cc = R[2];
 R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2312883_25, closureRef(R[0], 0), v_action, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2313527_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj v_2312882_25= co->res;
+Obj v_2313526_25= co->res;
 Obj v_pat = R[1];
 Obj v_cc = R[2];
-Obj v_action = v_2312882_25;
+Obj v_action = v_2313526_25;
 R[1] = v_action;
 R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
@@ -2998,36 +2998,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v_2312864_25 = PRIM_CDR(v_rules);
-Obj v_2312865_25 = PRIM_CAR(v_2312864_25);
-Obj v_action = v_2312865_25;
-Obj v_2312610_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+Obj v_2313508_25 = PRIM_CDR(v_rules);
+Obj v_2313509_25 = PRIM_CAR(v_2313508_25);
+Obj v_action = v_2313509_25;
+Obj v_2313199_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
 R[1] = v_action;
-R[2] = v_2312610_25;
+R[2] = v_2313199_25;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
 return;
 }
 case 1:
 {
-Obj v_2312873_25= co->res;
+Obj v_2313517_25= co->res;
 Obj v_action = R[1];
-Obj v_2312610_25 = R[2];
-if (True == v_2312873_25) {
-Obj v_2312874_25 = PRIM_CAR(v_action);
-Obj v_2312875_25 = PRIM_EQ(v_2312874_25, getBinding(co, packageID, 110).name);
-if (True == v_2312875_25) {
+Obj v_2313199_25 = R[2];
+if (True == v_2313517_25) {
+Obj v_2313518_25 = PRIM_CAR(v_action);
+Obj v_2313519_25 = PRIM_EQ(v_2313518_25, getBinding(co, packageID, 110).name);
+if (True == v_2313519_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312610_25, True);
+coraCall1(co, v_2313199_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312610_25, False);
+coraCall1(co, v_2313199_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312610_25, False);
+coraCall1(co, v_2313199_25, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312611_25 = R[1];
-if (True == v_2312611_25) {
+Obj v_2313200_25 = R[1];
+if (True == v_2313200_25) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj v_2312867_25= co->res;
-Obj v_2312866_25 = R[1];
-Obj v_2312868_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2312869_25 = makeCons(co->gc, v_2312868_25, Nil);
-Obj v_2312870_25 = makeCons(co->gc, v_2312867_25, v_2312869_25);
-Obj v_2312871_25 = makeCons(co->gc, v_2312866_25, v_2312870_25);
-Obj v_2312872_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312871_25);
-coraReturn(co, v_2312872_25);
+Obj v_2313511_25= co->res;
+Obj v_2313510_25 = R[1];
+Obj v_2313512_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2313513_25 = makeCons(co->gc, v_2313512_25, Nil);
+Obj v_2313514_25 = makeCons(co->gc, v_2313511_25, v_2313513_25);
+Obj v_2313515_25 = makeCons(co->gc, v_2313510_25, v_2313514_25);
+Obj v_2313516_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313515_25);
+coraReturn(co, v_2313516_25);
 return;
 }
 case 2:
 {
-Obj v_2312866_25= co->res;
-R[1] = v_2312866_25;
+Obj v_2313510_25= co->res;
+R[1] = v_2313510_25;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3089,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj v_2312862_25= co->res;
+Obj v_2313506_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2312862_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2313506_25);
 return;
 }
 case 2:
 {
-Obj v_2312849_25= co->res;
+Obj v_2313493_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2312849_25) {
-Obj v_2312850_25 = PRIM_CAR(v_pat);
-Obj v_2312851_25 = PRIM_EQ(v_2312850_25, getBinding(co, packageID, 139).name);
-if (True == v_2312851_25) {
-Obj v_2312852_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2312853_25 = makeCons(co->gc, v_pat, v_2312852_25);
-Obj v_2312854_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312853_25);
-Obj v_2312855_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2312856_25 = makeCons(co->gc, v_2312855_25, Nil);
-Obj v_2312857_25 = makeCons(co->gc, v_body, v_2312856_25);
-Obj v_2312858_25 = makeCons(co->gc, v_2312854_25, v_2312857_25);
-Obj v_2312859_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312858_25);
-coraReturn(co, v_2312859_25);
-return;
-} else {
-Obj v_2312860_25 = PRIM_CAR(v_pat);
-Obj v_2312861_25 = PRIM_EQ(v_2312860_25, getBinding(co, packageID, 152).name);
-if (True == v_2312861_25) {
+if (True == v_2313493_25) {
+Obj v_2313494_25 = PRIM_CAR(v_pat);
+Obj v_2313495_25 = PRIM_EQ(v_2313494_25, getBinding(co, packageID, 139).name);
+if (True == v_2313495_25) {
+Obj v_2313496_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313497_25 = makeCons(co->gc, v_pat, v_2313496_25);
+Obj v_2313498_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313497_25);
+Obj v_2313499_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313500_25 = makeCons(co->gc, v_2313499_25, Nil);
+Obj v_2313501_25 = makeCons(co->gc, v_body, v_2313500_25);
+Obj v_2313502_25 = makeCons(co->gc, v_2313498_25, v_2313501_25);
+Obj v_2313503_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313502_25);
+coraReturn(co, v_2313503_25);
+return;
+} else {
+Obj v_2313504_25 = PRIM_CAR(v_pat);
+Obj v_2313505_25 = PRIM_EQ(v_2313504_25, getBinding(co, packageID, 152).name);
+if (True == v_2313505_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3136,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj v_2312834_25= co->res;
+Obj v_2313478_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2312834_25) {
-Obj v_2312835_25 = PRIM_EQ(v_pat, v_expr);
-if (True == v_2312835_25) {
+if (True == v_2313478_25) {
+Obj v_2313479_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2313479_25) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v_2312836_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2312837_25 = makeCons(co->gc, v_pat, v_2312836_25);
-Obj v_2312838_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2312837_25);
-Obj v_2312839_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2312840_25 = makeCons(co->gc, v_2312839_25, Nil);
-Obj v_2312841_25 = makeCons(co->gc, v_body, v_2312840_25);
-Obj v_2312842_25 = makeCons(co->gc, v_2312838_25, v_2312841_25);
-Obj v_2312843_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312842_25);
-coraReturn(co, v_2312843_25);
+Obj v_2313480_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313481_25 = makeCons(co->gc, v_pat, v_2313480_25);
+Obj v_2313482_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313481_25);
+Obj v_2313483_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313484_25 = makeCons(co->gc, v_2313483_25, Nil);
+Obj v_2313485_25 = makeCons(co->gc, v_body, v_2313484_25);
+Obj v_2313486_25 = makeCons(co->gc, v_2313482_25, v_2313485_25);
+Obj v_2313487_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313486_25);
+coraReturn(co, v_2313487_25);
 return;
 }
 } else {
-Obj v_2312844_25 = primIsSymbol(v_pat);
-if (True == v_2312844_25) {
-Obj v_2312845_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2312846_25 = makeCons(co->gc, v_expr, v_2312845_25);
-Obj v_2312847_25 = makeCons(co->gc, v_pat, v_2312846_25);
-Obj v_2312848_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312847_25);
-coraReturn(co, v_2312848_25);
+Obj v_2313488_25 = primIsSymbol(v_pat);
+if (True == v_2313488_25) {
+Obj v_2313489_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2313490_25 = makeCons(co->gc, v_expr, v_2313489_25);
+Obj v_2313491_25 = makeCons(co->gc, v_pat, v_2313490_25);
+Obj v_2313492_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313491_25);
+coraReturn(co, v_2313492_25);
 return;
 } else {
 R[1] = v_expr;
@@ -3193,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj v_2312831_25= co->res;
+Obj v_2313475_25= co->res;
 Obj v_x = R[1];
-if (True == v_2312831_25) {
-Obj v_2312832_25 = primIsSymbol(v_x);
-Obj v_2312833_25 = primNot(v_2312832_25);
-if (True == v_2312833_25) {
+if (True == v_2313475_25) {
+Obj v_2313476_25 = primIsSymbol(v_x);
+Obj v_2313477_25 = primNot(v_2313476_25);
+if (True == v_2313477_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3231,40 +3231,40 @@ return;
 }
 case 1:
 {
-Obj v_2312810_25= co->res;
+Obj v_2313454_25= co->res;
 Obj v_x = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_y = v_2312810_25;
-Obj v_2312608_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
-Obj v_2312827_25 = PRIM_ISCONS(v_expr);
-if (True == v_2312827_25) {
-Obj v_2312828_25 = PRIM_CAR(v_expr);
-Obj v_2312829_25 = PRIM_EQ(v_2312828_25, getBinding(co, packageID, 152).name);
-if (True == v_2312829_25) {
+Obj v_y = v_2313454_25;
+Obj v_2313193_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2313471_25 = PRIM_ISCONS(v_expr);
+if (True == v_2313471_25) {
+Obj v_2313472_25 = PRIM_CAR(v_expr);
+Obj v_2313473_25 = PRIM_EQ(v_2313472_25, getBinding(co, packageID, 152).name);
+if (True == v_2313473_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312608_25, True);
+coraCall1(co, v_2313193_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312608_25, False);
+coraCall1(co, v_2313193_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312608_25, False);
+coraCall1(co, v_2313193_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2312809_25= co->res;
+Obj v_2313453_25= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_x = v_2312809_25;
+Obj v_x = v_2313453_25;
 R[1] = v_x;
 R[2] = v_body;
 R[3] = v_cc;
@@ -3280,38 +3280,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312609_25 = R[1];
-if (True == v_2312609_25) {
+Obj v_2313194_25 = R[1];
+if (True == v_2313194_25) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2312814_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312815_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2312814_25);
-Obj v_2312816_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312817_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2312816_25);
-Obj v_2312818_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2312819_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2312818_25);
-R[1] = v_2312817_25;
-R[2] = v_2312815_25;
+Obj v_2313458_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313459_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313458_25);
+Obj v_2313460_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313461_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313460_25);
+Obj v_2313462_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313463_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313462_25);
+R[1] = v_2313461_25;
+R[2] = v_2313459_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2312819_25, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2313463_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v_2312813_25= co->res;
+Obj v_2313457_25= co->res;
 Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2312813_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2313457_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v_2312812_25= co->res;
+Obj v_2313456_25= co->res;
 Obj v_e1 = R[1];
-Obj v_e2 = v_2312812_25;
+Obj v_e2 = v_2313456_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3319,8 +3319,8 @@ return;
 }
 case 3:
 {
-Obj v_2312811_25= co->res;
-Obj v_e1 = v_2312811_25;
+Obj v_2313455_25= co->res;
+Obj v_e1 = v_2313455_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3328,24 +3328,24 @@ return;
 }
 case 4:
 {
-Obj v_2312821_25= co->res;
-Obj v_2312815_25 = R[1];
-Obj v_2312822_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2312823_25 = makeCons(co->gc, v_2312822_25, Nil);
-Obj v_2312824_25 = makeCons(co->gc, v_2312821_25, v_2312823_25);
-Obj v_2312825_25 = makeCons(co->gc, v_2312815_25, v_2312824_25);
-Obj v_2312826_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312825_25);
-coraReturn(co, v_2312826_25);
+Obj v_2313465_25= co->res;
+Obj v_2313459_25 = R[1];
+Obj v_2313466_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2313467_25 = makeCons(co->gc, v_2313466_25, Nil);
+Obj v_2313468_25 = makeCons(co->gc, v_2313465_25, v_2313467_25);
+Obj v_2313469_25 = makeCons(co->gc, v_2313459_25, v_2313468_25);
+Obj v_2313470_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313469_25);
+coraReturn(co, v_2313470_25);
 return;
 }
 case 5:
 {
-Obj v_2312820_25= co->res;
-Obj v_2312817_25 = R[1];
-Obj v_2312815_25 = R[2];
-R[1] = v_2312815_25;
+Obj v_2313464_25= co->res;
+Obj v_2313461_25 = R[1];
+Obj v_2313459_25 = R[2];
+R[1] = v_2313459_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2312817_25, v_2312820_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2313461_25, v_2313464_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312807_25 = PRIM_CDR(v_exp);
+Obj v_2313451_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312807_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313451_25);
 return;
 }
 }
@@ -3369,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v_2312797_25 = PRIM_CDR(v_pat);
+Obj v_2313441_25 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312797_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313441_25);
 return;
 }
 case 1:
 {
-Obj v_2312802_25= co->res;
-Obj v_2312800_25 = R[1];
-Obj v_2312803_25 = makeCons(co->gc, v_2312802_25, Nil);
-Obj v_2312804_25 = makeCons(co->gc, v_2312800_25, v_2312803_25);
-Obj v_2312805_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312804_25);
-coraReturn(co, v_2312805_25);
+Obj v_2313446_25= co->res;
+Obj v_2313444_25 = R[1];
+Obj v_2313447_25 = makeCons(co->gc, v_2313446_25, Nil);
+Obj v_2313448_25 = makeCons(co->gc, v_2313444_25, v_2313447_25);
+Obj v_2313449_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313448_25);
+coraReturn(co, v_2313449_25);
 return;
 }
 case 2:
 {
-Obj v_2312798_25= co->res;
+Obj v_2313442_25= co->res;
 Obj v_pat = R[1];
-if (True == v_2312798_25) {
-Obj v_2312799_25 = PRIM_CAR(v_pat);
-coraReturn(co, v_2312799_25);
+if (True == v_2313442_25) {
+Obj v_2313443_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2313443_25);
 return;
 } else {
-Obj v_2312800_25 = PRIM_CAR(v_pat);
-Obj v_2312801_25 = PRIM_CDR(v_pat);
-R[1] = v_2312800_25;
+Obj v_2313444_25 = PRIM_CAR(v_pat);
+Obj v_2313445_25 = PRIM_CDR(v_pat);
+R[1] = v_2313444_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2312801_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313445_25);
 return;
 }
 }
@@ -3410,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312794_25 = PRIM_EQ(v_x, True);
-if (True == v_2312794_25) {
+Obj v_2313438_25 = PRIM_EQ(v_x, True);
+if (True == v_2313438_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312795_25 = PRIM_EQ(v_x, False);
-if (True == v_2312795_25) {
+Obj v_2313439_25 = PRIM_EQ(v_x, False);
+if (True == v_2313439_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312792_25 = PRIM_CDR(v_exp);
+Obj v_2313436_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312792_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313436_25);
 return;
 }
 }
@@ -3446,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2312780_25 = PRIM_EQ(Nil, v_l);
-if (True == v_2312780_25) {
+Obj v_2313424_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2313424_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312781_25 = PRIM_CAR(v_l);
-Obj v_2312782_25 = PRIM_EQ(v_2312781_25, False);
-if (True == v_2312782_25) {
+Obj v_2313425_25 = PRIM_CAR(v_l);
+Obj v_2313426_25 = PRIM_EQ(v_2313425_25, False);
+if (True == v_2313426_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312783_25 = PRIM_CDR(v_l);
+Obj v_2313427_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2312783_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313427_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312784_25= co->res;
+Obj v_2313428_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2312784_25;
-Obj v_2312785_25 = PRIM_EQ(v_more, False);
-if (True == v_2312785_25) {
+Obj v_more = v_2313428_25;
+Obj v_2313429_25 = PRIM_EQ(v_more, False);
+if (True == v_2313429_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312786_25 = PRIM_CAR(v_l);
-Obj v_2312787_25 = makeCons(co->gc, False, Nil);
-Obj v_2312788_25 = makeCons(co->gc, v_more, v_2312787_25);
-Obj v_2312789_25 = makeCons(co->gc, v_2312786_25, v_2312788_25);
-Obj v_2312790_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312789_25);
-coraReturn(co, v_2312790_25);
+Obj v_2313430_25 = PRIM_CAR(v_l);
+Obj v_2313431_25 = makeCons(co->gc, False, Nil);
+Obj v_2313432_25 = makeCons(co->gc, v_more, v_2313431_25);
+Obj v_2313433_25 = makeCons(co->gc, v_2313430_25, v_2313432_25);
+Obj v_2313434_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313433_25);
+coraReturn(co, v_2313434_25);
 return;
 }
 }
@@ -3492,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312778_25 = PRIM_CDR(v_exp);
+Obj v_2313422_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312778_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313422_25);
 return;
 }
 }
@@ -3505,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2312766_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2312766_25) {
+Obj v_2313410_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2313410_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2312767_25 = PRIM_CAR(v_l);
-Obj v_2312768_25 = PRIM_EQ(v_2312767_25, True);
-if (True == v_2312768_25) {
+Obj v_2313411_25 = PRIM_CAR(v_l);
+Obj v_2313412_25 = PRIM_EQ(v_2313411_25, True);
+if (True == v_2313412_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312769_25 = PRIM_CDR(v_l);
+Obj v_2313413_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2312769_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313413_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2312770_25= co->res;
+Obj v_2313414_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2312770_25;
-Obj v_2312771_25 = PRIM_EQ(v_more, True);
-if (True == v_2312771_25) {
+Obj v_more = v_2313414_25;
+Obj v_2313415_25 = PRIM_EQ(v_more, True);
+if (True == v_2313415_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312772_25 = PRIM_CAR(v_l);
-Obj v_2312773_25 = makeCons(co->gc, v_more, Nil);
-Obj v_2312774_25 = makeCons(co->gc, True, v_2312773_25);
-Obj v_2312775_25 = makeCons(co->gc, v_2312772_25, v_2312774_25);
-Obj v_2312776_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312775_25);
-coraReturn(co, v_2312776_25);
+Obj v_2313416_25 = PRIM_CAR(v_l);
+Obj v_2313417_25 = makeCons(co->gc, v_more, Nil);
+Obj v_2313418_25 = makeCons(co->gc, True, v_2313417_25);
+Obj v_2313419_25 = makeCons(co->gc, v_2313416_25, v_2313418_25);
+Obj v_2313420_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313419_25);
+coraReturn(co, v_2313420_25);
 return;
 }
 }
@@ -3551,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312752_25 = PRIM_CDR(v_exp);
-Obj v_2312753_25 = PRIM_EQ(Nil, v_2312752_25);
-if (True == v_2312753_25) {
-Obj v_2312754_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v_2312755_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2312754_25);
-coraReturn(co, v_2312755_25);
+Obj v_2313396_25 = PRIM_CDR(v_exp);
+Obj v_2313397_25 = PRIM_EQ(Nil, v_2313396_25);
+if (True == v_2313397_25) {
+Obj v_2313398_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2313399_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313398_25);
+coraReturn(co, v_2313399_25);
 return;
 } else {
 R[1] = v_exp;
@@ -3567,36 +3567,36 @@ return;
 }
 case 1:
 {
-Obj v_2312759_25= co->res;
-Obj v_2312758_25 = R[1];
-Obj v_2312757_25 = R[2];
-Obj v_2312760_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2312759_25);
-Obj v_2312761_25 = makeCons(co->gc, v_2312760_25, Nil);
-Obj v_2312762_25 = makeCons(co->gc, v_2312758_25, v_2312761_25);
-Obj v_2312763_25 = makeCons(co->gc, v_2312757_25, v_2312762_25);
-Obj v_2312764_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2312763_25);
-coraReturn(co, v_2312764_25);
+Obj v_2313403_25= co->res;
+Obj v_2313402_25 = R[1];
+Obj v_2313401_25 = R[2];
+Obj v_2313404_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313403_25);
+Obj v_2313405_25 = makeCons(co->gc, v_2313404_25, Nil);
+Obj v_2313406_25 = makeCons(co->gc, v_2313402_25, v_2313405_25);
+Obj v_2313407_25 = makeCons(co->gc, v_2313401_25, v_2313406_25);
+Obj v_2313408_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313407_25);
+coraReturn(co, v_2313408_25);
 return;
 }
 case 2:
 {
-Obj v_2312758_25= co->res;
+Obj v_2313402_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312757_25 = R[2];
-R[1] = v_2312758_25;
-R[2] = v_2312757_25;
+Obj v_2313401_25 = R[2];
+R[1] = v_2313402_25;
+R[2] = v_2313401_25;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312756_25= co->res;
+Obj v_2313400_25= co->res;
 Obj v_exp = R[1];
-Obj v_curr = v_2312756_25;
-Obj v_2312757_25 = PRIM_CAR(v_curr);
+Obj v_curr = v_2313400_25;
+Obj v_2313401_25 = PRIM_CAR(v_curr);
 R[1] = v_exp;
-R[2] = v_2312757_25;
+R[2] = v_2313401_25;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
 return;
@@ -3609,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312750_25 = PRIM_CDR(v_exp);
+Obj v_2313394_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312750_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313394_25);
 return;
 }
 }
@@ -3622,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312738_25 = PRIM_CDR(v_exp);
+Obj v_2313382_25 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2312738_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313382_25);
 return;
 }
 case 1:
 {
-Obj v_2312744_25= co->res;
-Obj v_2312742_25 = R[1];
-Obj v_2312741_25 = R[2];
-Obj v_2312745_25 = makeCons(co->gc, v_2312744_25, Nil);
-Obj v_2312746_25 = makeCons(co->gc, v_2312742_25, v_2312745_25);
-Obj v_2312747_25 = makeCons(co->gc, v_2312741_25, v_2312746_25);
-Obj v_2312748_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2312747_25);
-coraReturn(co, v_2312748_25);
+Obj v_2313388_25= co->res;
+Obj v_2313386_25 = R[1];
+Obj v_2313385_25 = R[2];
+Obj v_2313389_25 = makeCons(co->gc, v_2313388_25, Nil);
+Obj v_2313390_25 = makeCons(co->gc, v_2313386_25, v_2313389_25);
+Obj v_2313391_25 = makeCons(co->gc, v_2313385_25, v_2313390_25);
+Obj v_2313392_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313391_25);
+coraReturn(co, v_2313392_25);
 return;
 }
 case 2:
 {
-Obj v_2312743_25= co->res;
-Obj v_2312742_25 = R[1];
-Obj v_2312741_25 = R[2];
-R[1] = v_2312742_25;
-R[2] = v_2312741_25;
+Obj v_2313387_25= co->res;
+Obj v_2313386_25 = R[1];
+Obj v_2313385_25 = R[2];
+R[1] = v_2313386_25;
+R[2] = v_2313385_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2312743_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313387_25);
 return;
 }
 case 3:
 {
-Obj v_2312742_25= co->res;
+Obj v_2313386_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312741_25 = R[2];
-R[1] = v_2312742_25;
-R[2] = v_2312741_25;
+Obj v_2313385_25 = R[2];
+R[1] = v_2313386_25;
+R[2] = v_2313385_25;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2312739_25= co->res;
+Obj v_2313383_25= co->res;
 Obj v_exp = R[1];
-if (True == v_2312739_25) {
-Obj v_2312740_25 = PRIM_CAR(v_exp);
-coraReturn(co, v_2312740_25);
+if (True == v_2313383_25) {
+Obj v_2313384_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2313384_25);
 return;
 } else {
-Obj v_2312741_25 = PRIM_CAR(v_exp);
+Obj v_2313385_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2312741_25;
+R[2] = v_2313385_25;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3687,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312735_25 = PRIM_ISCONS(v_x);
-Obj v_2312736_25 = primNot(v_2312735_25);
-coraReturn(co, v_2312736_25);
+Obj v_2313379_25 = PRIM_ISCONS(v_x);
+Obj v_2313380_25 = primNot(v_2313379_25);
+coraReturn(co, v_2313380_25);
 return;
 }
 }
@@ -3701,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v_2312730_25 = PRIM_ISCONS(v_l);
-if (True == v_2312730_25) {
-Obj v_2312731_25 = PRIM_CAR(v_l);
-Obj v_2312732_25 = PRIM_EQ(v_2312731_25, v_x);
-if (True == v_2312732_25) {
+Obj v_2313374_25 = PRIM_ISCONS(v_l);
+if (True == v_2313374_25) {
+Obj v_2313375_25 = PRIM_CAR(v_l);
+Obj v_2313376_25 = PRIM_EQ(v_2313375_25, v_x);
+if (True == v_2313376_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2312733_25 = PRIM_CDR(v_l);
+Obj v_2313377_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2312733_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2313377_25);
 return;
 }
 } else {
@@ -3734,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj v_2312722_25= co->res;
-Obj v_2312721_25 = R[1];
-Obj v_2312720_25 = R[2];
-Obj v_2312723_25 = makeCons(co->gc, v_2312722_25, Nil);
-Obj v_2312724_25 = makeCons(co->gc, v_2312721_25, v_2312723_25);
-Obj v_2312725_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312724_25);
-Obj v_2312726_25 = makeCons(co->gc, v_2312725_25, Nil);
-Obj v_2312727_25 = makeCons(co->gc, v_2312720_25, v_2312726_25);
-Obj v_2312728_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2312727_25);
-coraReturn(co, v_2312728_25);
+Obj v_2313366_25= co->res;
+Obj v_2313365_25 = R[1];
+Obj v_2313364_25 = R[2];
+Obj v_2313367_25 = makeCons(co->gc, v_2313366_25, Nil);
+Obj v_2313368_25 = makeCons(co->gc, v_2313365_25, v_2313367_25);
+Obj v_2313369_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313368_25);
+Obj v_2313370_25 = makeCons(co->gc, v_2313369_25, Nil);
+Obj v_2313371_25 = makeCons(co->gc, v_2313364_25, v_2313370_25);
+Obj v_2313372_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313371_25);
+coraReturn(co, v_2313372_25);
 return;
 }
 case 2:
 {
-Obj v_2312721_25= co->res;
+Obj v_2313365_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312720_25 = R[2];
-R[1] = v_2312721_25;
-R[2] = v_2312720_25;
+Obj v_2313364_25 = R[2];
+R[1] = v_2313365_25;
+R[2] = v_2313364_25;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312720_25= co->res;
+Obj v_2313364_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v_2312720_25;
+R[2] = v_2313364_25;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3775,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312718_25 = PRIM_CDR(v_exp);
+Obj v_2313362_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312718_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313362_25);
 return;
 }
 }
@@ -3795,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj v_2312710_25= co->res;
-Obj v_2312709_25 = R[1];
-Obj v_2312708_25 = R[2];
-Obj v_2312711_25 = makeCons(co->gc, v_2312709_25, v_2312710_25);
-Obj v_2312712_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312711_25);
-Obj v_2312713_25 = makeCons(co->gc, v_2312712_25, Nil);
-Obj v_2312714_25 = makeCons(co->gc, v_2312708_25, v_2312713_25);
-Obj v_2312715_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2312714_25);
-coraReturn(co, v_2312715_25);
+Obj v_2313354_25= co->res;
+Obj v_2313353_25 = R[1];
+Obj v_2313352_25 = R[2];
+Obj v_2313355_25 = makeCons(co->gc, v_2313353_25, v_2313354_25);
+Obj v_2313356_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313355_25);
+Obj v_2313357_25 = makeCons(co->gc, v_2313356_25, Nil);
+Obj v_2313358_25 = makeCons(co->gc, v_2313352_25, v_2313357_25);
+Obj v_2313359_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2313358_25);
+coraReturn(co, v_2313359_25);
 return;
 }
 case 2:
 {
-Obj v_2312709_25= co->res;
+Obj v_2313353_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312708_25 = R[2];
-R[1] = v_2312709_25;
-R[2] = v_2312708_25;
+Obj v_2313352_25 = R[2];
+R[1] = v_2313353_25;
+R[2] = v_2313352_25;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2312706_25= co->res;
+Obj v_2313350_25= co->res;
 Obj v_exp = R[1];
-Obj v_2312707_25 = makeCons(co->gc, v_2312706_25, Nil);
-Obj v_2312708_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2312707_25);
+Obj v_2313351_25 = makeCons(co->gc, v_2313350_25, Nil);
+Obj v_2313352_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313351_25);
 R[1] = v_exp;
-R[2] = v_2312708_25;
+R[2] = v_2313352_25;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3837,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312688_25 = PRIM_ISCONS(v_exp);
-if (True == v_2312688_25) {
-Obj v_2312689_25 = PRIM_CAR(v_exp);
-Obj v_2312690_25 = PRIM_EQ(v_2312689_25, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v_2312690_25) {
-Obj v_2312691_25 = PRIM_CDR(v_exp);
-coraReturn(co, v_2312691_25);
-return;
-} else {
-Obj v_2312692_25 = PRIM_CAR(v_exp);
-Obj v_2312693_25 = PRIM_EQ(v_2312692_25, getBinding(co, packageID, 140).name);
-if (True == v_2312693_25) {
+Obj v_2313332_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313332_25) {
+Obj v_2313333_25 = PRIM_CAR(v_exp);
+Obj v_2313334_25 = PRIM_EQ(v_2313333_25, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v_2313334_25) {
+Obj v_2313335_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2313335_25);
+return;
+} else {
+Obj v_2313336_25 = PRIM_CAR(v_exp);
+Obj v_2313337_25 = PRIM_EQ(v_2313336_25, getBinding(co, packageID, 140).name);
+if (True == v_2313337_25) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v_2312700_25 = PRIM_CAR(v_exp);
-Obj v_2312701_25 = PRIM_EQ(v_2312700_25, getBinding(co, packageID, 139).name);
-if (True == v_2312701_25) {
+Obj v_2313344_25 = PRIM_CAR(v_exp);
+Obj v_2313345_25 = PRIM_EQ(v_2313344_25, getBinding(co, packageID, 139).name);
+if (True == v_2313345_25) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3874,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj v_2312696_25= co->res;
-Obj v_2312694_25 = R[1];
-Obj v_2312697_25 = makeCons(co->gc, v_2312696_25, Nil);
-Obj v_2312698_25 = makeCons(co->gc, v_2312694_25, v_2312697_25);
-Obj v_2312699_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2312698_25);
-coraReturn(co, v_2312699_25);
+Obj v_2313340_25= co->res;
+Obj v_2313338_25 = R[1];
+Obj v_2313341_25 = makeCons(co->gc, v_2313340_25, Nil);
+Obj v_2313342_25 = makeCons(co->gc, v_2313338_25, v_2313341_25);
+Obj v_2313343_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313342_25);
+coraReturn(co, v_2313343_25);
 return;
 }
 case 2:
 {
-Obj v_2312695_25= co->res;
-Obj v_2312694_25 = R[1];
-R[1] = v_2312694_25;
+Obj v_2313339_25= co->res;
+Obj v_2313338_25 = R[1];
+R[1] = v_2313338_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2312695_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2313339_25);
 return;
 }
 case 3:
 {
-Obj v_2312694_25= co->res;
+Obj v_2313338_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2312694_25;
+R[1] = v_2313338_25;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2312703_25= co->res;
+Obj v_2313347_25= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2312703_25);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313347_25);
 return;
 }
 }
@@ -3916,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v_2312702_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v_2312702_25) {
+Obj v_2313346_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2313346_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3948,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v_2312678_25 = PRIM_EQ(Nil, v_macros);
-if (True == v_2312678_25) {
+Obj v_2313322_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2313322_25) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v_2312685_25 = PRIM_CAR(v_macros);
+Obj v_2313329_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2312685_25);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313329_25);
 return;
 }
 }
@@ -3967,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v_2312606_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2312681_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2312681_25) {
-Obj v_2312682_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2312683_25 = PRIM_CAR(v_item);
-Obj v_2312684_25 = PRIM_EQ(v_2312682_25, v_2312683_25);
-if (True == v_2312684_25) {
+Obj v_2313171_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2313325_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313325_25) {
+Obj v_2313326_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313327_25 = PRIM_CAR(v_item);
+Obj v_2313328_25 = PRIM_EQ(v_2313326_25, v_2313327_25);
+if (True == v_2313328_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2312606_25, True);
+coraCall1(co, v_2313171_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312606_25, False);
+coraCall1(co, v_2313171_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2312606_25, False);
+coraCall1(co, v_2313171_25, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2312607_25 = R[1];
-if (True == v_2312607_25) {
-Obj v_2312679_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313172_25 = R[1];
+if (True == v_2313172_25) {
+Obj v_2313323_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v_2312679_25, closureRef(R[0], 1));
+coraCall1(co, v_2313323_25, closureRef(R[0], 1));
 return;
 } else {
-Obj v_2312680_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313324_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2312680_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2313324_25);
 return;
 }
 }
@@ -4017,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v_2312674_25 = makeCons(co->gc, v_n, v_v);
-Obj v_2312675_25 = makeCons(co->gc, v_2312674_25, globalRef(co, getBinding(co, packageID, 146)));
-Obj v_2312676_25 = primSet(co, getBinding(co, packageID, 146).name, v_2312675_25);
-coraReturn(co, v_2312676_25);
+Obj v_2313318_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2313319_25 = makeCons(co->gc, v_2313318_25, globalRef(co, getBinding(co, packageID, 146)));
+Obj v_2313320_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313319_25);
+coraReturn(co, v_2313320_25);
 return;
 }
 }
@@ -4046,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v_2312664_25 = PRIM_ISCONS(v_l);
-if (True == v_2312664_25) {
-Obj v_2312665_25 = PRIM_CAR(v_l);
+Obj v_2313308_25 = PRIM_ISCONS(v_l);
+if (True == v_2313308_25) {
+Obj v_2313309_25 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v_2312665_25);
+coraCall1(co, v_f, v_2313309_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -4063,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj v_2312666_25= co->res;
+Obj v_2313310_25= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v_2312667_25 = makeCons(co->gc, v_2312666_25, v_res);
-Obj v_2312668_25 = PRIM_CDR(v_l);
+Obj v_2313311_25 = makeCons(co->gc, v_2313310_25, v_res);
+Obj v_2313312_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2312667_25, v_f, v_2312668_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2313311_25, v_f, v_2313312_25);
 return;
 }
 }
@@ -4082,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v_2312657_25 = PRIM_ISCONS(v_l);
-if (True == v_2312657_25) {
-Obj v_2312658_25 = PRIM_CAR(v_l);
-Obj v_2312659_25 = makeCons(co->gc, v_2312658_25, v_res);
-Obj v_2312660_25 = PRIM_CDR(v_l);
+Obj v_2313301_25 = PRIM_ISCONS(v_l);
+if (True == v_2313301_25) {
+Obj v_2313302_25 = PRIM_CAR(v_l);
+Obj v_2313303_25 = makeCons(co->gc, v_2313302_25, v_res);
+Obj v_2313304_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2312659_25, v_2312660_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2313303_25, v_2313304_25);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312655_25 = PRIM_ISCONS(v_x);
-coraReturn(co, v_2312655_25);
+Obj v_2313299_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2313299_25);
 return;
 }
 }
@@ -4115,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2312647_25 = PRIM_ISCONS(v_exp);
-if (True == v_2312647_25) {
-Obj v_2312648_25 = PRIM_CAR(v_exp);
-Obj v_2312649_25 = PRIM_CDR(v_exp);
-R[1] = v_2312648_25;
+Obj v_2313291_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313291_25) {
+Obj v_2313292_25 = PRIM_CAR(v_exp);
+Obj v_2313293_25 = PRIM_CDR(v_exp);
+R[1] = v_2313292_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2312649_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313293_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj v_2312650_25= co->res;
-Obj v_2312648_25 = R[1];
-Obj v_2312651_25 = makeCons(co->gc, v_2312650_25, Nil);
-Obj v_2312652_25 = makeCons(co->gc, v_2312648_25, v_2312651_25);
-Obj v_2312653_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2312652_25);
-coraReturn(co, v_2312653_25);
+Obj v_2313294_25= co->res;
+Obj v_2313292_25 = R[1];
+Obj v_2313295_25 = makeCons(co->gc, v_2313294_25, Nil);
+Obj v_2313296_25 = makeCons(co->gc, v_2313292_25, v_2313295_25);
+Obj v_2313297_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313296_25);
+coraReturn(co, v_2313297_25);
 return;
 }
 }
@@ -4146,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312643_25 = PRIM_CDR(v_x);
-Obj v_2312644_25 = PRIM_CDR(v_2312643_25);
-Obj v_2312645_25 = PRIM_CDR(v_2312644_25);
-coraReturn(co, v_2312645_25);
+Obj v_2313287_25 = PRIM_CDR(v_x);
+Obj v_2313288_25 = PRIM_CDR(v_2313287_25);
+Obj v_2313289_25 = PRIM_CDR(v_2313288_25);
+coraReturn(co, v_2313289_25);
 return;
 }
 }
@@ -4160,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312638_25 = PRIM_CDR(v_x);
-Obj v_2312639_25 = PRIM_CDR(v_2312638_25);
-Obj v_2312640_25 = PRIM_CDR(v_2312639_25);
-Obj v_2312641_25 = PRIM_CAR(v_2312640_25);
-coraReturn(co, v_2312641_25);
+Obj v_2313282_25 = PRIM_CDR(v_x);
+Obj v_2313283_25 = PRIM_CDR(v_2313282_25);
+Obj v_2313284_25 = PRIM_CDR(v_2313283_25);
+Obj v_2313285_25 = PRIM_CAR(v_2313284_25);
+coraReturn(co, v_2313285_25);
 return;
 }
 }
@@ -4175,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312634_25 = PRIM_CDR(v_x);
-Obj v_2312635_25 = PRIM_CDR(v_2312634_25);
-Obj v_2312636_25 = PRIM_CAR(v_2312635_25);
-coraReturn(co, v_2312636_25);
+Obj v_2313278_25 = PRIM_CDR(v_x);
+Obj v_2313279_25 = PRIM_CDR(v_2313278_25);
+Obj v_2313280_25 = PRIM_CAR(v_2313279_25);
+coraReturn(co, v_2313280_25);
 return;
 }
 }
@@ -4189,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312631_25 = PRIM_CDR(v_x);
-Obj v_2312632_25 = PRIM_CDR(v_2312631_25);
-coraReturn(co, v_2312632_25);
+Obj v_2313275_25 = PRIM_CDR(v_x);
+Obj v_2313276_25 = PRIM_CDR(v_2313275_25);
+coraReturn(co, v_2313276_25);
 return;
 }
 }
@@ -4202,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312628_25 = PRIM_CAR(v_x);
-Obj v_2312629_25 = PRIM_CDR(v_2312628_25);
-coraReturn(co, v_2312629_25);
+Obj v_2313272_25 = PRIM_CAR(v_x);
+Obj v_2313273_25 = PRIM_CDR(v_2313272_25);
+coraReturn(co, v_2313273_25);
 return;
 }
 }
@@ -4215,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312625_25 = PRIM_CAR(v_x);
-Obj v_2312626_25 = PRIM_CAR(v_2312625_25);
-coraReturn(co, v_2312626_25);
+Obj v_2313269_25 = PRIM_CAR(v_x);
+Obj v_2313270_25 = PRIM_CAR(v_2313269_25);
+coraReturn(co, v_2313270_25);
 return;
 }
 }
@@ -4228,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312622_25 = PRIM_CDR(v_x);
-Obj v_2312623_25 = PRIM_CAR(v_2312622_25);
-coraReturn(co, v_2312623_25);
+Obj v_2313266_25 = PRIM_CDR(v_x);
+Obj v_2313267_25 = PRIM_CAR(v_2313266_25);
+coraReturn(co, v_2313267_25);
 return;
 }
 }
@@ -4241,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2312620_25 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v_2312620_25);
+Obj v_2313264_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2313264_25);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 598d344..8844c62 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,13 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun152(struct Cora* co, int label, Obj *R);
+static void clofun151(struct Cora* co, int label, Obj *R);
+static void clofun150(struct Cora* co, int label, Obj *R);
+static void clofun149(struct Cora* co, int label, Obj *R);
+static void clofun148(struct Cora* co, int label, Obj *R);
+static void clofun147(struct Cora* co, int label, Obj *R);
+static void clofun146(struct Cora* co, int label, Obj *R);
 static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
@@ -152,7 +159,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 133);
+Binding *__symbolTable = malloc(sizeof(Binding) * 136);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
@@ -206,275 +213,281 @@ __symbolTable[49] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"))
 __symbolTable[50] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
 __symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
 __symbolTable[52] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
-__symbolTable[53] = bindSymbol(co, intern("cora/init#value"));
-__symbolTable[54] = bindSymbol(co, intern("cora/init#vector-set!"));
-__symbolTable[55] = bindSymbol(co, intern("cora/lib/toc#append-result"));
-__symbolTable[56] = bindSymbol(co, intern("cora/init#vector-ref"));
-__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
-__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
-__symbolTable[59] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
-__symbolTable[60] = bindSymbol(co, intern("cora/init#cdddr"));
-__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
-__symbolTable[62] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
-__symbolTable[63] = bindSymbol(co, intern("%continuation"));
-__symbolTable[64] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
-__symbolTable[65] = bindSymbol(co, intern("cora/init#caar"));
-__symbolTable[66] = bindSymbol(co, intern("cora/init#pair?"));
-__symbolTable[67] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
-__symbolTable[68] = bindSymbol(co, intern("cora/init#reverse"));
-__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
-__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#tailify"));
-__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#id"));
-__symbolTable[72] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
-__symbolTable[73] = bindSymbol(co, intern("return"));
-__symbolTable[74] = bindSymbol(co, intern("call"));
-__symbolTable[75] = bindSymbol(co, intern("tailcall"));
-__symbolTable[76] = bindSymbol(co, intern("continuation"));
-__symbolTable[77] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
-__symbolTable[78] = bindSymbol(co, intern("%closure-ref"));
-__symbolTable[79] = bindSymbol(co, intern("%closure"));
-__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
-__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[84] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[85] = bindSymbol(co, intern("quote"));
-__symbolTable[86] = bindSymbol(co, intern("do"));
-__symbolTable[87] = bindSymbol(co, intern("let"));
-__symbolTable[88] = bindSymbol(co, intern("if"));
-__symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[90] = bindSymbol(co, intern("lambda"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[93] = bindSymbol(co, intern("%global"));
-__symbolTable[94] = bindSymbol(co, intern("cora/init#elem?"));
-__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[96] = bindSymbol(co, intern("%builtin"));
-__symbolTable[97] = bindSymbol(co, intern("%const"));
-__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#parse-quote"));
-__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[105] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[106] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[107] = bindSymbol(co, intern("string?"));
-__symbolTable[108] = bindSymbol(co, intern("integer?"));
-__symbolTable[109] = bindSymbol(co, intern("not"));
-__symbolTable[110] = bindSymbol(co, intern("symbol?"));
-__symbolTable[111] = bindSymbol(co, intern("gensym"));
-__symbolTable[112] = bindSymbol(co, intern("<"));
-__symbolTable[113] = bindSymbol(co, intern(">"));
-__symbolTable[114] = bindSymbol(co, intern("="));
-__symbolTable[115] = bindSymbol(co, intern("/"));
-__symbolTable[116] = bindSymbol(co, intern("*"));
-__symbolTable[117] = bindSymbol(co, intern("-"));
-__symbolTable[118] = bindSymbol(co, intern("+"));
-__symbolTable[119] = bindSymbol(co, intern("cons?"));
-__symbolTable[120] = bindSymbol(co, intern("cons"));
-__symbolTable[121] = bindSymbol(co, intern("cdr"));
-__symbolTable[122] = bindSymbol(co, intern("car"));
-__symbolTable[123] = bindSymbol(co, intern("set"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[132] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[53] = bindSymbol(co, intern("cora/init#vector-set!"));
+__symbolTable[54] = bindSymbol(co, intern("cora/lib/toc#append-result"));
+__symbolTable[55] = bindSymbol(co, intern("cora/init#vector-ref"));
+__symbolTable[56] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
+__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
+__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
+__symbolTable[59] = bindSymbol(co, intern("cora/init#cdddr"));
+__symbolTable[60] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
+__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
+__symbolTable[62] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
+__symbolTable[63] = bindSymbol(co, intern("cora/init#caar"));
+__symbolTable[64] = bindSymbol(co, intern("cora/init#pair?"));
+__symbolTable[65] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
+__symbolTable[66] = bindSymbol(co, intern("cora/init#reverse"));
+__symbolTable[67] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
+__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#tailify"));
+__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#id"));
+__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
+__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
+__symbolTable[72] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
+__symbolTable[73] = bindSymbol(co, intern("cora/lib/toc#diff"));
+__symbolTable[74] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[75] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[76] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[77] = bindSymbol(co, intern("quote"));
+__symbolTable[78] = bindSymbol(co, intern("do"));
+__symbolTable[79] = bindSymbol(co, intern("let"));
+__symbolTable[80] = bindSymbol(co, intern("if"));
+__symbolTable[81] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[82] = bindSymbol(co, intern("lambda"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[84] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[85] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[86] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[87] = bindSymbol(co, intern("cora/lib/toc#parse-quote"));
+__symbolTable[88] = bindSymbol(co, intern("cora/init#value"));
+__symbolTable[89] = bindSymbol(co, intern("cora/lib/toc#let-variable"));
+__symbolTable[90] = bindSymbol(co, intern("cora/lib/toc#extend-env"));
+__symbolTable[91] = bindSymbol(co, intern("%builtin"));
+__symbolTable[92] = bindSymbol(co, intern("%global"));
+__symbolTable[93] = bindSymbol(co, intern("%const"));
+__symbolTable[94] = bindSymbol(co, intern("%closure-ref"));
+__symbolTable[95] = bindSymbol(co, intern("%closure"));
+__symbolTable[96] = bindSymbol(co, intern("%continuation"));
+__symbolTable[97] = bindSymbol(co, intern("continuation"));
+__symbolTable[98] = bindSymbol(co, intern("tailcall"));
+__symbolTable[99] = bindSymbol(co, intern("call"));
+__symbolTable[100] = bindSymbol(co, intern("return"));
+__symbolTable[101] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#local-name"));
+__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[104] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[106] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[107] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[108] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[109] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[110] = bindSymbol(co, intern("string?"));
+__symbolTable[111] = bindSymbol(co, intern("integer?"));
+__symbolTable[112] = bindSymbol(co, intern("not"));
+__symbolTable[113] = bindSymbol(co, intern("symbol?"));
+__symbolTable[114] = bindSymbol(co, intern("gensym"));
+__symbolTable[115] = bindSymbol(co, intern("<"));
+__symbolTable[116] = bindSymbol(co, intern(">"));
+__symbolTable[117] = bindSymbol(co, intern("="));
+__symbolTable[118] = bindSymbol(co, intern("/"));
+__symbolTable[119] = bindSymbol(co, intern("*"));
+__symbolTable[120] = bindSymbol(co, intern("-"));
+__symbolTable[121] = bindSymbol(co, intern("+"));
+__symbolTable[122] = bindSymbol(co, intern("cons?"));
+__symbolTable[123] = bindSymbol(co, intern("cons"));
+__symbolTable[124] = bindSymbol(co, intern("cdr"));
+__symbolTable[125] = bindSymbol(co, intern("car"));
+__symbolTable[126] = bindSymbol(co, intern("set"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[132] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[133] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[134] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[135] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun145;
+co->ctx.fn = clofun152;
 co->ctx.label = 0;
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun152(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun145, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/toc/internal"));
+saveCont(co, clofun152, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v_2318334_25= co->res;
-Obj v_2318340_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj v_2318346_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v_2318368_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun114, 3, 0));
-Obj v_2318391_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun116, 4, 0));
-Obj v_2318404_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun119, 3, 0));
-Obj v_2318445_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
-Obj v_2318484_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
-Obj v_2318536_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj v_2318537_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj v_2318551_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
-Obj v_2318552_25 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v_2318565_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
-Obj v_2318575_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
-coraReturn(co, v_2318575_25);
+Obj v_2319186_25= co->res;
+Obj v_2319192_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun118, 2, 0));
+Obj v_2319198_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun119, 2, 0));
+Obj v_2319220_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun121, 3, 0));
+Obj v_2319243_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun123, 4, 0));
+Obj v_2319256_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun126, 3, 0));
+Obj v_2319297_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun131, 1, 0));
+Obj v_2319336_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun134, 4, 0));
+Obj v_2319388_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun139, 2, 0));
+Obj v_2319389_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun140, 2, 0));
+Obj v_2319403_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun148, 1, 0));
+Obj v_2319404_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2319417_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun150, 1, 0));
+Obj v_2319427_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun151, 2, 0));
+coraReturn(co, v_2319427_25);
 return;
 }
 case 2:
 {
-Obj v_2316938_25= co->res;
-Obj v_2316939_25 = primSet(co, getBinding(co, packageID, 131).name, Nil);
-Obj v_2316954_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v_2316960_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v_2316970_25 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v_2316971_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v_2316978_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2316979_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2316980_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316979_25);
-Obj v_2316981_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2316980_25);
-Obj v_2316982_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2316983_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316982_25);
-Obj v_2316984_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2316983_25);
-Obj v_2316985_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2316986_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316985_25);
-Obj v_2316987_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2316986_25);
-Obj v_2316988_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2316989_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316988_25);
-Obj v_2316990_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2316989_25);
-Obj v_2316991_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2316992_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2316991_25);
-Obj v_2316993_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2316992_25);
-Obj v_2316994_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2316995_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316994_25);
-Obj v_2316996_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2316995_25);
-Obj v_2316997_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2316998_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2316997_25);
-Obj v_2316999_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2316998_25);
-Obj v_2317000_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2317001_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317000_25);
-Obj v_2317002_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2317001_25);
-Obj v_2317003_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2317004_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317003_25);
-Obj v_2317005_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2317004_25);
-Obj v_2317006_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2317007_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317006_25);
-Obj v_2317008_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2317007_25);
-Obj v_2317009_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2317010_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317009_25);
-Obj v_2317011_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2317010_25);
-Obj v_2317012_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2317013_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317012_25);
-Obj v_2317014_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2317013_25);
-Obj v_2317015_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2317016_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2317015_25);
-Obj v_2317017_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2317016_25);
-Obj v_2317018_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2317019_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317018_25);
-Obj v_2317020_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2317019_25);
-Obj v_2317021_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2317022_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317021_25);
-Obj v_2317023_25 = makeCons(co->gc, getBinding(co, packageID, 109).name, v_2317022_25);
-Obj v_2317024_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2317025_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317024_25);
-Obj v_2317026_25 = makeCons(co->gc, getBinding(co, packageID, 108).name, v_2317025_25);
-Obj v_2317027_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2317028_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317027_25);
-Obj v_2317029_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2317028_25);
-Obj v_2317030_25 = makeCons(co->gc, v_2317029_25, Nil);
-Obj v_2317031_25 = makeCons(co->gc, v_2317026_25, v_2317030_25);
-Obj v_2317032_25 = makeCons(co->gc, v_2317023_25, v_2317031_25);
-Obj v_2317033_25 = makeCons(co->gc, v_2317020_25, v_2317032_25);
-Obj v_2317034_25 = makeCons(co->gc, v_2317017_25, v_2317033_25);
-Obj v_2317035_25 = makeCons(co->gc, v_2317014_25, v_2317034_25);
-Obj v_2317036_25 = makeCons(co->gc, v_2317011_25, v_2317035_25);
-Obj v_2317037_25 = makeCons(co->gc, v_2317008_25, v_2317036_25);
-Obj v_2317038_25 = makeCons(co->gc, v_2317005_25, v_2317037_25);
-Obj v_2317039_25 = makeCons(co->gc, v_2317002_25, v_2317038_25);
-Obj v_2317040_25 = makeCons(co->gc, v_2316999_25, v_2317039_25);
-Obj v_2317041_25 = makeCons(co->gc, v_2316996_25, v_2317040_25);
-Obj v_2317042_25 = makeCons(co->gc, v_2316993_25, v_2317041_25);
-Obj v_2317043_25 = makeCons(co->gc, v_2316990_25, v_2317042_25);
-Obj v_2317044_25 = makeCons(co->gc, v_2316987_25, v_2317043_25);
-Obj v_2317045_25 = makeCons(co->gc, v_2316984_25, v_2317044_25);
-Obj v_2317046_25 = makeCons(co->gc, v_2316981_25, v_2317045_25);
-Obj v_2317047_25 = primSet(co, getBinding(co, packageID, 124).name, v_2317046_25);
-Obj v_2317051_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2317054_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2317057_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2317062_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v_2317079_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 4, clofun11, 2, 0));
-Obj v_2317270_25 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun21, 3, 0));
-Obj v_2317281_25 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun23, 2, 0));
-Obj v_2317292_25 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun25, 2, 0));
-Obj v_2317353_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2317528_25 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun42, 1, 0));
-Obj v_2317601_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun45, 2, 0));
-Obj v_2317604_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun46, 1, 0));
-Obj v_2317741_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2317764_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj v_2317841_25 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj v_2317872_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun66, 3, 0));
-Obj v_2317878_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun69, 4, 0));
-Obj v_2317883_25 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun71, 2, 0));
-Obj v_2317892_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun73, 1, 0));
-Obj v_2317943_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun75, 2, 0));
-Obj v_2317951_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun76, 2, 0));
-Obj v_2317958_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun77, 2, 0));
-Obj v_2317963_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj v_2317969_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun79, 3, 0));
-Obj v_2317970_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2317977_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun82, 5, 0));
-Obj v_2317984_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj v_2318271_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun97, 5, 0));
-Obj v_2318285_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj v_2318307_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun101, 5, 0));
-Obj v_2318309_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj v_2318313_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v_2318314_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v_2318315_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj v_2318316_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v_2318317_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v_2318324_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun108, 1, 0));
-Obj v_2318331_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun109, 2, 0));
-saveCont(co, clofun145, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj v_2317745_25= co->res;
+Obj v_2317746_25 = primSet(co, getBinding(co, packageID, 134).name, Nil);
+Obj v_2317761_25 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2317767_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2317777_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2317778_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2317785_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2317786_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2317787_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317786_25);
+Obj v_2317788_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2317787_25);
+Obj v_2317789_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2317790_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317789_25);
+Obj v_2317791_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2317790_25);
+Obj v_2317792_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2317793_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317792_25);
+Obj v_2317794_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2317793_25);
+Obj v_2317795_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2317796_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317795_25);
+Obj v_2317797_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2317796_25);
+Obj v_2317798_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2317799_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317798_25);
+Obj v_2317800_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2317799_25);
+Obj v_2317801_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2317802_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317801_25);
+Obj v_2317803_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2317802_25);
+Obj v_2317804_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2317805_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317804_25);
+Obj v_2317806_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2317805_25);
+Obj v_2317807_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2317808_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317807_25);
+Obj v_2317809_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2317808_25);
+Obj v_2317810_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2317811_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317810_25);
+Obj v_2317812_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2317811_25);
+Obj v_2317813_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2317814_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317813_25);
+Obj v_2317815_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2317814_25);
+Obj v_2317816_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2317817_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317816_25);
+Obj v_2317818_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2317817_25);
+Obj v_2317819_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2317820_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317819_25);
+Obj v_2317821_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2317820_25);
+Obj v_2317822_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2317823_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2317822_25);
+Obj v_2317824_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2317823_25);
+Obj v_2317825_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2317826_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317825_25);
+Obj v_2317827_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2317826_25);
+Obj v_2317828_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2317829_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317828_25);
+Obj v_2317830_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2317829_25);
+Obj v_2317831_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2317832_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317831_25);
+Obj v_2317833_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2317832_25);
+Obj v_2317834_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2317835_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317834_25);
+Obj v_2317836_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2317835_25);
+Obj v_2317837_25 = makeCons(co->gc, v_2317836_25, Nil);
+Obj v_2317838_25 = makeCons(co->gc, v_2317833_25, v_2317837_25);
+Obj v_2317839_25 = makeCons(co->gc, v_2317830_25, v_2317838_25);
+Obj v_2317840_25 = makeCons(co->gc, v_2317827_25, v_2317839_25);
+Obj v_2317841_25 = makeCons(co->gc, v_2317824_25, v_2317840_25);
+Obj v_2317842_25 = makeCons(co->gc, v_2317821_25, v_2317841_25);
+Obj v_2317843_25 = makeCons(co->gc, v_2317818_25, v_2317842_25);
+Obj v_2317844_25 = makeCons(co->gc, v_2317815_25, v_2317843_25);
+Obj v_2317845_25 = makeCons(co->gc, v_2317812_25, v_2317844_25);
+Obj v_2317846_25 = makeCons(co->gc, v_2317809_25, v_2317845_25);
+Obj v_2317847_25 = makeCons(co->gc, v_2317806_25, v_2317846_25);
+Obj v_2317848_25 = makeCons(co->gc, v_2317803_25, v_2317847_25);
+Obj v_2317849_25 = makeCons(co->gc, v_2317800_25, v_2317848_25);
+Obj v_2317850_25 = makeCons(co->gc, v_2317797_25, v_2317849_25);
+Obj v_2317851_25 = makeCons(co->gc, v_2317794_25, v_2317850_25);
+Obj v_2317852_25 = makeCons(co->gc, v_2317791_25, v_2317851_25);
+Obj v_2317853_25 = makeCons(co->gc, v_2317788_25, v_2317852_25);
+Obj v_2317854_25 = primSet(co, getBinding(co, packageID, 127).name, v_2317853_25);
+Obj v_2317858_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2317861_25 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2317864_25 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2317869_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2317882_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun11, 1, 0));
+Obj v_2317893_25 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 4, clofun14, 3, 0));
+Obj v_2317903_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun16, 3, 0));
+Obj v_2317920_25 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 4, clofun17, 2, 0));
+Obj v_2318120_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun28, 4, 0));
+Obj v_2318131_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun30, 2, 0));
+Obj v_2318142_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun32, 2, 0));
+Obj v_2318203_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun39, 1, 0));
+Obj v_2318378_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2318451_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun52, 2, 0));
+Obj v_2318454_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun53, 1, 0));
+Obj v_2318591_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj v_2318614_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun65, 3, 0));
+Obj v_2318691_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun69, 2, 0));
+Obj v_2318722_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun73, 3, 0));
+Obj v_2318728_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun76, 4, 0));
+Obj v_2318733_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun78, 2, 0));
+Obj v_2318742_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun80, 1, 0));
+Obj v_2318793_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun82, 2, 0));
+Obj v_2318801_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun83, 2, 0));
+Obj v_2318808_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun84, 2, 0));
+Obj v_2318813_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun85, 2, 0));
+Obj v_2318819_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun86, 3, 0));
+Obj v_2318820_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun87, 2, 0));
+Obj v_2318827_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun89, 5, 0));
+Obj v_2318834_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun91, 5, 0));
+Obj v_2319121_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun104, 5, 0));
+Obj v_2319135_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun106, 5, 0));
+Obj v_2319157_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun108, 5, 0));
+Obj v_2319159_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun109, 2, 0));
+Obj v_2319163_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj v_2319166_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v_2319167_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun112, 1, 0));
+Obj v_2319168_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun113, 1, 0));
+Obj v_2319169_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun114, 1, 0));
+Obj v_2319176_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun115, 1, 0));
+Obj v_2319183_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun116, 2, 0));
+saveCont(co, clofun152, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun117, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2316937_25= co->res;
-saveCont(co, clofun145, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/hash-h"));
+Obj v_2317744_25= co->res;
+saveCont(co, clofun152, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v_2316936_25= co->res;
-saveCont(co, clofun145, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/io"));
+Obj v_2317743_25= co->res;
+saveCont(co, clofun152, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun151(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v_2318566_25 = primGenSym(co);
-Obj v_globals = v_2318566_25;
-Obj v_2318567_25 = primSet(co, v_globals, Nil);
+Obj v_2319418_25 = primGenSym(co);
+Obj v_globals = v_2319418_25;
+Obj v_2319419_25 = primSet(co, v_globals, Nil);
 R[1] = v_from;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun144, 7, R);
+saveCont(co, clofun151, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2318574_25= co->res;
+Obj v_2319426_25= co->res;
 Obj v_stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
@@ -482,91 +495,91 @@ return;
 }
 case 2:
 {
-Obj v_2318573_25= co->res;
+Obj v_2319425_25= co->res;
 Obj v_bc = R[1];
 Obj v_stream = R[2];
 R[1] = v_stream;
-saveCont(co, clofun144, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2318573_25);
+saveCont(co, clofun151, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2319425_25);
 return;
 }
 case 3:
 {
-Obj v_2318572_25= co->res;
+Obj v_2319424_25= co->res;
 Obj v_globals = R[1];
 Obj v_bc = R[2];
-Obj v_stream = v_2318572_25;
+Obj v_stream = v_2319424_25;
 R[1] = v_bc;
 R[2] = v_stream;
-saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
+saveCont(co, clofun151, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_globals);
 return;
 }
 case 4:
 {
-Obj v_2318571_25= co->res;
+Obj v_2319423_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_bc = v_2318571_25;
+Obj v_bc = v_2319423_25;
 R[1] = v_globals;
 R[2] = v_bc;
-saveCont(co, clofun144, 3, R);
+saveCont(co, clofun151, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj v_2318570_25= co->res;
-Obj v_2318568_25 = R[1];
+Obj v_2319422_25= co->res;
+Obj v_2319420_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
-saveCont(co, clofun144, 4, R);
-coraCall1(co, v_2318568_25, v_2318570_25);
+saveCont(co, clofun151, 4, R);
+coraCall1(co, v_2319420_25, v_2319422_25);
 return;
 }
 case 6:
 {
-Obj v_2318569_25= co->res;
-Obj v_2318568_25 = R[1];
+Obj v_2319421_25= co->res;
+Obj v_2319420_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2318568_25;
+R[1] = v_2319420_25;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2318569_25);
+saveCont(co, clofun151, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2319421_25);
 return;
 }
 case 7:
 {
-Obj v_2318568_25= co->res;
+Obj v_2319420_25= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2318568_25;
+R[1] = v_2319420_25;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun144, 6, R);
+saveCont(co, clofun151, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun150(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_file_2dpath = R[1];
-saveCont(co, clofun143, 8, R);
+saveCont(co, clofun150, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_2dpath);
 return;
 }
 case 1:
 {
-Obj v_2318560_25= co->res;
+Obj v_2319412_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -574,16 +587,16 @@ return;
 }
 case 2:
 {
-Obj v_2318559_25= co->res;
+Obj v_2319411_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun143, 1, R);
+saveCont(co, clofun150, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 3:
 {
-Obj v_2318562_25= co->res;
+Obj v_2319414_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -591,16 +604,16 @@ return;
 }
 case 4:
 {
-Obj v_2318561_25= co->res;
+Obj v_2319413_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun143, 3, R);
+saveCont(co, clofun150, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 5:
 {
-Obj v_2318564_25= co->res;
+Obj v_2319416_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -608,115 +621,115 @@ return;
 }
 case 6:
 {
-Obj v_2318563_25= co->res;
+Obj v_2319415_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun143, 5, R);
+saveCont(co, clofun150, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 7:
 {
-Obj v_2318556_25= co->res;
-Obj v_2316934_25 = R[1];
+Obj v_2319408_25= co->res;
+Obj v_2317739_25 = R[1];
 Obj v_sexp = R[2];
-if (True == v_2318556_25) {
-Obj v_2318557_25 = PRIM_CAR(v_sexp);
-Obj v_2318558_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318557_25);
-if (True == v_2318558_25) {
+if (True == v_2319408_25) {
+Obj v_2319409_25 = PRIM_CAR(v_sexp);
+Obj v_2319410_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319409_25);
+if (True == v_2319410_25) {
 R[1] = v_sexp;
-saveCont(co, clofun143, 2, R);
-coraCall1(co, v_2316934_25, True);
+saveCont(co, clofun150, 2, R);
+coraCall1(co, v_2317739_25, True);
 return;
 } else {
 R[1] = v_sexp;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, v_2316934_25, False);
+saveCont(co, clofun150, 4, R);
+coraCall1(co, v_2317739_25, False);
 return;
 }
 } else {
 R[1] = v_sexp;
-saveCont(co, clofun143, 6, R);
-coraCall1(co, v_2316934_25, False);
+saveCont(co, clofun150, 6, R);
+coraCall1(co, v_2317739_25, False);
 return;
 }
 }
 case 8:
 {
-Obj v_2318553_25= co->res;
-Obj v_sexp = v_2318553_25;
-Obj v_2316934_25 = makeNative(co->gc, 2, clofun142, 1, 1, v_sexp);
-R[1] = v_2316934_25;
+Obj v_2319405_25= co->res;
+Obj v_sexp = v_2319405_25;
+Obj v_2317739_25 = makeNative(co->gc, 2, clofun149, 1, 1, v_sexp);
+R[1] = v_2317739_25;
 R[2] = v_sexp;
-saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_sexp);
+saveCont(co, clofun150, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_sexp);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun149(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316935_25 = R[1];
-if (True == v_2316935_25) {
-Obj v_2318554_25 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v_2318554_25);
+Obj v_2317740_25 = R[1];
+if (True == v_2317740_25) {
+Obj v_2319406_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2319406_25);
 return;
 } else {
-Obj v_2318555_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v_2318555_25);
+Obj v_2319407_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2319407_25);
 return;
 }
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316922_25 = R[1];
-Obj v_2316923_25 = makeNative(co->gc, 1, clofun138, 0, 1, v_2316922_25);
-Obj v_2318546_25 = PRIM_ISCONS(v_2316922_25);
-if (True == v_2318546_25) {
-Obj v_2318547_25 = PRIM_CAR(v_2316922_25);
-Obj v_2318548_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318547_25);
-if (True == v_2318548_25) {
-Obj v_2318549_25 = PRIM_CDR(v_2316922_25);
-Obj v_more = v_2318549_25;
-Obj v_2318550_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
+Obj v_2317572_25 = R[1];
+Obj v_2317573_25 = makeNative(co->gc, 1, clofun145, 0, 1, v_2317572_25);
+Obj v_2319398_25 = PRIM_ISCONS(v_2317572_25);
+if (True == v_2319398_25) {
+Obj v_2319399_25 = PRIM_CAR(v_2317572_25);
+Obj v_2319400_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319399_25);
+if (True == v_2319400_25) {
+Obj v_2319401_25 = PRIM_CDR(v_2317572_25);
+Obj v_more = v_2319401_25;
+Obj v_2319402_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318550_25, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319402_25, makeNative(co->gc, 2, clofun147, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316923_25);
+coraCall0(co, v_2317573_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316923_25);
+coraCall0(co, v_2317573_25);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun146, 2, 0));
 return;
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -729,49 +742,49 @@ return;
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316924_25 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
-Obj v_2318541_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318541_25) {
-Obj v_2318542_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318543_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318542_25);
-if (True == v_2318543_25) {
-Obj v_2318544_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318544_25;
-Obj v_2318545_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
+Obj v_2317574_25 = makeNative(co->gc, 1, clofun142, 0, 1, closureRef(R[0], 0));
+Obj v_2319393_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319393_25) {
+Obj v_2319394_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319395_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319394_25);
+if (True == v_2319395_25) {
+Obj v_2319396_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319396_25;
+Obj v_2319397_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2318545_25, makeNative(co->gc, 2, clofun137, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319397_25, makeNative(co->gc, 2, clofun144, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316924_25);
+coraCall0(co, v_2317574_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316924_25);
+coraCall0(co, v_2317574_25);
 return;
 }
 }
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
 return;
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -784,39 +797,39 @@ return;
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318538_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2319390_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2318538_25, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2319390_25, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
 return;
 }
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_type = R[1];
 Obj v_code = R[2];
-saveCont(co, clofun134, 1, R);
+saveCont(co, clofun141, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj v_2318539_25= co->res;
-Obj v_2318540_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318539_25);
-coraReturn(co, v_2318540_25);
+Obj v_2319391_25= co->res;
+Obj v_2319392_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319391_25);
+coraReturn(co, v_2319392_25);
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -824,7 +837,7 @@ Obj v_type = R[1];
 Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_type, v_code);
 return;
 } else {
 coraReturn(co, v_code);
@@ -834,219 +847,219 @@ return;
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316915_25 = R[1];
-Obj v_2316916_25 = R[2];
-Obj v_2316917_25 = makeNative(co->gc, 2, clofun131, 0, 2, v_2316915_25, v_2316916_25);
-Obj v_2318524_25 = PRIM_ISCONS(v_2316915_25);
-if (True == v_2318524_25) {
-Obj v_2318525_25 = PRIM_CAR(v_2316915_25);
-Obj v_2318526_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318525_25);
-if (True == v_2318526_25) {
-Obj v_2318527_25 = PRIM_CDR(v_2316915_25);
-Obj v_2318528_25 = PRIM_ISCONS(v_2318527_25);
-if (True == v_2318528_25) {
-Obj v_2318529_25 = PRIM_CDR(v_2316915_25);
-Obj v_2318530_25 = PRIM_CAR(v_2318529_25);
-Obj v_name = v_2318530_25;
-Obj v_2318531_25 = PRIM_CDR(v_2316915_25);
-Obj v_2318532_25 = PRIM_CDR(v_2318531_25);
-Obj v_more = v_2318532_25;
+Obj v_2317565_25 = R[1];
+Obj v_2317566_25 = R[2];
+Obj v_2317567_25 = makeNative(co->gc, 2, clofun138, 0, 2, v_2317565_25, v_2317566_25);
+Obj v_2319376_25 = PRIM_ISCONS(v_2317565_25);
+if (True == v_2319376_25) {
+Obj v_2319377_25 = PRIM_CAR(v_2317565_25);
+Obj v_2319378_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319377_25);
+if (True == v_2319378_25) {
+Obj v_2319379_25 = PRIM_CDR(v_2317565_25);
+Obj v_2319380_25 = PRIM_ISCONS(v_2319379_25);
+if (True == v_2319380_25) {
+Obj v_2319381_25 = PRIM_CDR(v_2317565_25);
+Obj v_2319382_25 = PRIM_CAR(v_2319381_25);
+Obj v_name = v_2319382_25;
+Obj v_2319383_25 = PRIM_CDR(v_2317565_25);
+Obj v_2319384_25 = PRIM_CDR(v_2319383_25);
+Obj v_more = v_2319384_25;
 R[1] = v_name;
-saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2316916_25);
+saveCont(co, clofun139, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2317566_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316917_25);
+coraCall0(co, v_2317567_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316917_25);
+coraCall0(co, v_2317567_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316917_25);
+coraCall0(co, v_2317567_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318533_25= co->res;
+Obj v_2319385_25= co->res;
 Obj v_name = R[1];
-Obj v_2318534_25 = makeCons(co->gc, v_name, v_2318533_25);
-Obj v_2318535_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2318534_25);
-coraReturn(co, v_2318535_25);
+Obj v_2319386_25 = makeCons(co->gc, v_name, v_2319385_25);
+Obj v_2319387_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2319386_25);
+coraReturn(co, v_2319387_25);
 return;
 }
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316918_25 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318503_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318503_25) {
-Obj v_2318504_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318505_25 = PRIM_ISCONS(v_2318504_25);
-if (True == v_2318505_25) {
-Obj v_2318506_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318507_25 = PRIM_CAR(v_2318506_25);
-Obj v_2318508_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318507_25);
-if (True == v_2318508_25) {
-Obj v_2318509_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318510_25 = PRIM_CDR(v_2318509_25);
-Obj v_2318511_25 = PRIM_ISCONS(v_2318510_25);
-if (True == v_2318511_25) {
-Obj v_2318512_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318513_25 = PRIM_CDR(v_2318512_25);
-Obj v_2318514_25 = PRIM_CAR(v_2318513_25);
-Obj v_pkg = v_2318514_25;
-Obj v_2318515_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318516_25 = PRIM_CDR(v_2318515_25);
-Obj v_2318517_25 = PRIM_CDR(v_2318516_25);
-Obj v_2318518_25 = PRIM_EQ(Nil, v_2318517_25);
-if (True == v_2318518_25) {
-Obj v_2318519_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318519_25;
-Obj v_2318520_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2318521_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2318520_25);
-R[1] = v_2318521_25;
-saveCont(co, clofun131, 1, R);
+Obj v_2317568_25 = makeNative(co->gc, 2, clofun137, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319355_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319355_25) {
+Obj v_2319356_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319357_25 = PRIM_ISCONS(v_2319356_25);
+if (True == v_2319357_25) {
+Obj v_2319358_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319359_25 = PRIM_CAR(v_2319358_25);
+Obj v_2319360_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319359_25);
+if (True == v_2319360_25) {
+Obj v_2319361_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319362_25 = PRIM_CDR(v_2319361_25);
+Obj v_2319363_25 = PRIM_ISCONS(v_2319362_25);
+if (True == v_2319363_25) {
+Obj v_2319364_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319365_25 = PRIM_CDR(v_2319364_25);
+Obj v_2319366_25 = PRIM_CAR(v_2319365_25);
+Obj v_pkg = v_2319366_25;
+Obj v_2319367_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319368_25 = PRIM_CDR(v_2319367_25);
+Obj v_2319369_25 = PRIM_CDR(v_2319368_25);
+Obj v_2319370_25 = PRIM_EQ(Nil, v_2319369_25);
+if (True == v_2319370_25) {
+Obj v_2319371_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319371_25;
+Obj v_2319372_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2319373_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2319372_25);
+R[1] = v_2319373_25;
+saveCont(co, clofun138, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316918_25);
+coraCall0(co, v_2317568_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316918_25);
+coraCall0(co, v_2317568_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316918_25);
+coraCall0(co, v_2317568_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316918_25);
+coraCall0(co, v_2317568_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316918_25);
+coraCall0(co, v_2317568_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318522_25= co->res;
-Obj v_2318521_25 = R[1];
-Obj v_2318523_25 = makeCons(co->gc, v_2318521_25, v_2318522_25);
-coraReturn(co, v_2318523_25);
+Obj v_2319374_25= co->res;
+Obj v_2319373_25 = R[1];
+Obj v_2319375_25 = makeCons(co->gc, v_2319373_25, v_2319374_25);
+coraReturn(co, v_2319375_25);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316919_25 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318491_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318491_25) {
-Obj v_2318492_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318493_25 = PRIM_ISCONS(v_2318492_25);
-if (True == v_2318493_25) {
-Obj v_2318494_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318495_25 = PRIM_CAR(v_2318494_25);
-Obj v_2318496_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318495_25);
-if (True == v_2318496_25) {
-Obj v_2318497_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318498_25 = PRIM_CDR(v_2318497_25);
-Obj v_symbols = v_2318498_25;
-Obj v_2318499_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318499_25;
-Obj v_2318500_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
-R[1] = v_2318500_25;
-saveCont(co, clofun130, 1, R);
+Obj v_2317569_25 = makeNative(co->gc, 1, clofun136, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319343_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319343_25) {
+Obj v_2319344_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319345_25 = PRIM_ISCONS(v_2319344_25);
+if (True == v_2319345_25) {
+Obj v_2319346_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319347_25 = PRIM_CAR(v_2319346_25);
+Obj v_2319348_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319347_25);
+if (True == v_2319348_25) {
+Obj v_2319349_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319350_25 = PRIM_CDR(v_2319349_25);
+Obj v_symbols = v_2319350_25;
+Obj v_2319351_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319351_25;
+Obj v_2319352_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2319352_25;
+saveCont(co, clofun137, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316919_25);
+coraCall0(co, v_2317569_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316919_25);
+coraCall0(co, v_2317569_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316919_25);
+coraCall0(co, v_2317569_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318501_25= co->res;
-Obj v_2318500_25 = R[1];
-Obj v_2318502_25 = makeCons(co->gc, v_2318500_25, v_2318501_25);
-coraReturn(co, v_2318502_25);
+Obj v_2319353_25= co->res;
+Obj v_2319352_25 = R[1];
+Obj v_2319354_25 = makeCons(co->gc, v_2319352_25, v_2319353_25);
+coraReturn(co, v_2319354_25);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316920_25 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2318485_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318485_25) {
-Obj v_2318486_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318487_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318486_25);
-if (True == v_2318487_25) {
-Obj v_2318488_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318488_25;
-saveCont(co, clofun129, 1, R);
+Obj v_2317570_25 = makeNative(co->gc, 1, clofun135, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2319337_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319337_25) {
+Obj v_2319338_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319339_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319338_25);
+if (True == v_2319339_25) {
+Obj v_2319340_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319340_25;
+saveCont(co, clofun136, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316920_25);
+coraCall0(co, v_2317570_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316920_25);
+coraCall0(co, v_2317570_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318489_25= co->res;
-Obj v_2318490_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2318489_25);
-coraReturn(co, v_2318490_25);
+Obj v_2319341_25= co->res;
+Obj v_2319342_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319341_25);
+coraReturn(co, v_2319342_25);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1057,329 +1070,329 @@ return;
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316907_25 = R[1];
-Obj v_2316908_25 = R[2];
-Obj v_2316909_25 = R[3];
-Obj v_2316910_25 = R[4];
-Obj v_2318446_25 = PRIM_EQ(Nil, v_2316907_25);
-if (True == v_2318446_25) {
-R[1] = v_2316909_25;
-R[2] = v_2316910_25;
-saveCont(co, clofun127, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316908_25);
+Obj v_2317557_25 = R[1];
+Obj v_2317558_25 = R[2];
+Obj v_2317559_25 = R[3];
+Obj v_2317560_25 = R[4];
+Obj v_2319298_25 = PRIM_EQ(Nil, v_2317557_25);
+if (True == v_2319298_25) {
+R[1] = v_2317559_25;
+R[2] = v_2317560_25;
+saveCont(co, clofun134, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317558_25);
 return;
 } else {
-Obj v_2316912_25 = makeNative(co->gc, 1, clofun126, 0, 4, v_2316907_25, v_2316908_25, v_2316909_25, v_2316910_25);
-Obj v_2318473_25 = PRIM_ISCONS(v_2316907_25);
-if (True == v_2318473_25) {
-Obj v_2318474_25 = PRIM_CAR(v_2316907_25);
-Obj v_2318475_25 = PRIM_ISCONS(v_2318474_25);
-if (True == v_2318475_25) {
-Obj v_2318476_25 = PRIM_CAR(v_2316907_25);
-Obj v_2318477_25 = PRIM_CAR(v_2318476_25);
-Obj v_2318478_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2318477_25);
-if (True == v_2318478_25) {
-Obj v_2318479_25 = PRIM_CAR(v_2316907_25);
-Obj v_2318480_25 = PRIM_CDR(v_2318479_25);
-Obj v_exp = v_2318480_25;
-Obj v_2318481_25 = PRIM_CDR(v_2316907_25);
-Obj v_more = v_2318481_25;
-Obj v_2318482_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
-Obj v_2318483_25 = makeCons(co->gc, v_2318482_25, v_2316908_25);
+Obj v_2317562_25 = makeNative(co->gc, 1, clofun133, 0, 4, v_2317557_25, v_2317558_25, v_2317559_25, v_2317560_25);
+Obj v_2319325_25 = PRIM_ISCONS(v_2317557_25);
+if (True == v_2319325_25) {
+Obj v_2319326_25 = PRIM_CAR(v_2317557_25);
+Obj v_2319327_25 = PRIM_ISCONS(v_2319326_25);
+if (True == v_2319327_25) {
+Obj v_2319328_25 = PRIM_CAR(v_2317557_25);
+Obj v_2319329_25 = PRIM_CAR(v_2319328_25);
+Obj v_2319330_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319329_25);
+if (True == v_2319330_25) {
+Obj v_2319331_25 = PRIM_CAR(v_2317557_25);
+Obj v_2319332_25 = PRIM_CDR(v_2319331_25);
+Obj v_exp = v_2319332_25;
+Obj v_2319333_25 = PRIM_CDR(v_2317557_25);
+Obj v_more = v_2319333_25;
+Obj v_2319334_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2319335_25 = makeCons(co->gc, v_2319334_25, v_2317558_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318483_25, v_2316909_25, v_2316910_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319335_25, v_2317559_25, v_2317560_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316912_25);
+coraCall0(co, v_2317562_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316912_25);
+coraCall0(co, v_2317562_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316912_25);
+coraCall0(co, v_2317562_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318448_25= co->res;
-Obj v_2316910_25 = R[1];
-Obj v_2318447_25 = R[2];
+Obj v_2319300_25= co->res;
+Obj v_2317560_25 = R[1];
+Obj v_2319299_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2316910_25, v_2318447_25, v_2318448_25);
+coraCall2(co, v_2317560_25, v_2319299_25, v_2319300_25);
 return;
 }
 case 2:
 {
-Obj v_2318447_25= co->res;
-Obj v_2316909_25 = R[1];
-Obj v_2316910_25 = R[2];
-R[1] = v_2316910_25;
-R[2] = v_2318447_25;
-saveCont(co, clofun127, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316909_25);
+Obj v_2319299_25= co->res;
+Obj v_2317559_25 = R[1];
+Obj v_2317560_25 = R[2];
+R[1] = v_2317560_25;
+R[2] = v_2319299_25;
+saveCont(co, clofun134, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317559_25);
 return;
 }
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316913_25 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318462_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318462_25) {
-Obj v_2318463_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318464_25 = PRIM_ISCONS(v_2318463_25);
-if (True == v_2318464_25) {
-Obj v_2318465_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318466_25 = PRIM_CAR(v_2318465_25);
-Obj v_2318467_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2318466_25);
-if (True == v_2318467_25) {
-Obj v_2318468_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318469_25 = PRIM_CDR(v_2318468_25);
-Obj v_exp = v_2318469_25;
-Obj v_2318470_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318470_25;
-Obj v_2318471_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
-Obj v_2318472_25 = makeCons(co->gc, v_2318471_25, closureRef(R[0], 1));
+Obj v_2317563_25 = makeNative(co->gc, 1, clofun132, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2319314_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319314_25) {
+Obj v_2319315_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319316_25 = PRIM_ISCONS(v_2319315_25);
+if (True == v_2319316_25) {
+Obj v_2319317_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319318_25 = PRIM_CAR(v_2319317_25);
+Obj v_2319319_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319318_25);
+if (True == v_2319319_25) {
+Obj v_2319320_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319321_25 = PRIM_CDR(v_2319320_25);
+Obj v_exp = v_2319321_25;
+Obj v_2319322_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319322_25;
+Obj v_2319323_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2319324_25 = makeCons(co->gc, v_2319323_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318472_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319324_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316913_25);
+coraCall0(co, v_2317563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316913_25);
+coraCall0(co, v_2317563_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316913_25);
+coraCall0(co, v_2317563_25);
 return;
 }
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318449_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318449_25) {
-Obj v_2318450_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_exp = v_2318450_25;
-Obj v_2318451_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2318451_25;
-Obj v_2318452_25 = makeCons(co->gc, v_exp, Nil);
-Obj v_2318453_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2318452_25);
-Obj v_2318454_25 = makeCons(co->gc, v_2318453_25, Nil);
-Obj v_2318455_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2318454_25);
-Obj v_2318456_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v_2318457_25 = makeCons(co->gc, v_2318456_25, Nil);
-Obj v_2318458_25 = makeCons(co->gc, v_2318455_25, v_2318457_25);
-Obj v_2318459_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2318458_25);
-Obj v_2318460_25 = makeCons(co->gc, v_2318459_25, closureRef(R[0], 1));
-Obj v_2318461_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
+Obj v_2319301_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319301_25) {
+Obj v_2319302_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2319302_25;
+Obj v_2319303_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319303_25;
+Obj v_2319304_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2319305_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319304_25);
+Obj v_2319306_25 = makeCons(co->gc, v_2319305_25, Nil);
+Obj v_2319307_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319306_25);
+Obj v_2319308_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2319309_25 = makeCons(co->gc, v_2319308_25, Nil);
+Obj v_2319310_25 = makeCons(co->gc, v_2319307_25, v_2319309_25);
+Obj v_2319311_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319310_25);
+Obj v_2319312_25 = makeCons(co->gc, v_2319311_25, closureRef(R[0], 1));
+Obj v_2319313_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2318460_25, v_2318461_25, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319312_25, v_2319313_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316901_25 = R[1];
-Obj v_2316902_25 = makeNative(co->gc, 1, clofun123, 0, 1, v_2316901_25);
-Obj v_2318436_25 = PRIM_ISCONS(v_2316901_25);
-if (True == v_2318436_25) {
-Obj v_2318437_25 = PRIM_CAR(v_2316901_25);
-Obj v_2318438_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2318437_25);
-if (True == v_2318438_25) {
-Obj v_2318439_25 = PRIM_CDR(v_2316901_25);
-Obj v_2318440_25 = PRIM_ISCONS(v_2318439_25);
-if (True == v_2318440_25) {
-Obj v_2318441_25 = PRIM_CDR(v_2316901_25);
-Obj v_2318442_25 = PRIM_CAR(v_2318441_25);
-Obj v_2318443_25 = PRIM_CDR(v_2316901_25);
-Obj v_2318444_25 = PRIM_CDR(v_2318443_25);
-Obj v_remain = v_2318444_25;
+Obj v_2317551_25 = R[1];
+Obj v_2317552_25 = makeNative(co->gc, 1, clofun130, 0, 1, v_2317551_25);
+Obj v_2319288_25 = PRIM_ISCONS(v_2317551_25);
+if (True == v_2319288_25) {
+Obj v_2319289_25 = PRIM_CAR(v_2317551_25);
+Obj v_2319290_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319289_25);
+if (True == v_2319290_25) {
+Obj v_2319291_25 = PRIM_CDR(v_2317551_25);
+Obj v_2319292_25 = PRIM_ISCONS(v_2319291_25);
+if (True == v_2319292_25) {
+Obj v_2319293_25 = PRIM_CDR(v_2317551_25);
+Obj v_2319294_25 = PRIM_CAR(v_2319293_25);
+Obj v_2319295_25 = PRIM_CDR(v_2317551_25);
+Obj v_2319296_25 = PRIM_CDR(v_2319295_25);
+Obj v_remain = v_2319296_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316902_25);
+coraCall0(co, v_2317552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316902_25);
+coraCall0(co, v_2317552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316902_25);
+coraCall0(co, v_2317552_25);
 return;
 }
 }
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316903_25 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
-Obj v_2318432_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318432_25) {
-Obj v_2318433_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318434_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2318433_25);
-if (True == v_2318434_25) {
-Obj v_2318435_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318435_25;
+Obj v_2317553_25 = makeNative(co->gc, 1, clofun129, 0, 1, closureRef(R[0], 0));
+Obj v_2319284_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319284_25) {
+Obj v_2319285_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319286_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319285_25);
+if (True == v_2319286_25) {
+Obj v_2319287_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319287_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316903_25);
+coraCall0(co, v_2317553_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316903_25);
+coraCall0(co, v_2317553_25);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316904_25 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
-Obj v_2318423_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318423_25) {
-Obj v_2318424_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318425_25 = PRIM_ISCONS(v_2318424_25);
-if (True == v_2318425_25) {
-Obj v_2318426_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318427_25 = PRIM_CAR(v_2318426_25);
-Obj v_2318428_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2318427_25);
-if (True == v_2318428_25) {
-Obj v_2318429_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318430_25 = PRIM_CDR(v_2318429_25);
-Obj v_2318431_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318431_25;
+Obj v_2317554_25 = makeNative(co->gc, 2, clofun128, 0, 1, closureRef(R[0], 0));
+Obj v_2319275_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319275_25) {
+Obj v_2319276_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319277_25 = PRIM_ISCONS(v_2319276_25);
+if (True == v_2319277_25) {
+Obj v_2319278_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319279_25 = PRIM_CAR(v_2319278_25);
+Obj v_2319280_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319279_25);
+if (True == v_2319280_25) {
+Obj v_2319281_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319282_25 = PRIM_CDR(v_2319281_25);
+Obj v_2319283_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319283_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316904_25);
+coraCall0(co, v_2317554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316904_25);
+coraCall0(co, v_2317554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316904_25);
+coraCall0(co, v_2317554_25);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316905_25 = makeNative(co->gc, 1, clofun120, 0, 0);
-Obj v_2318405_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318405_25) {
-Obj v_2318406_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318407_25 = PRIM_ISCONS(v_2318406_25);
-if (True == v_2318407_25) {
-Obj v_2318408_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318409_25 = PRIM_CAR(v_2318408_25);
-Obj v_2318410_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2318409_25);
-if (True == v_2318410_25) {
-Obj v_2318411_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318412_25 = PRIM_CDR(v_2318411_25);
-Obj v_2318413_25 = PRIM_ISCONS(v_2318412_25);
-if (True == v_2318413_25) {
-Obj v_2318414_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318415_25 = PRIM_CDR(v_2318414_25);
-Obj v_2318416_25 = PRIM_CAR(v_2318415_25);
-Obj v_pkg = v_2318416_25;
-Obj v_2318417_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318418_25 = PRIM_CDR(v_2318417_25);
-Obj v_2318419_25 = PRIM_CDR(v_2318418_25);
-Obj v_2318420_25 = PRIM_EQ(Nil, v_2318419_25);
-if (True == v_2318420_25) {
-Obj v_2318421_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2318421_25;
+Obj v_2317555_25 = makeNative(co->gc, 1, clofun127, 0, 0);
+Obj v_2319257_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319257_25) {
+Obj v_2319258_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319259_25 = PRIM_ISCONS(v_2319258_25);
+if (True == v_2319259_25) {
+Obj v_2319260_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319261_25 = PRIM_CAR(v_2319260_25);
+Obj v_2319262_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319261_25);
+if (True == v_2319262_25) {
+Obj v_2319263_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319264_25 = PRIM_CDR(v_2319263_25);
+Obj v_2319265_25 = PRIM_ISCONS(v_2319264_25);
+if (True == v_2319265_25) {
+Obj v_2319266_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319267_25 = PRIM_CDR(v_2319266_25);
+Obj v_2319268_25 = PRIM_CAR(v_2319267_25);
+Obj v_pkg = v_2319268_25;
+Obj v_2319269_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319270_25 = PRIM_CDR(v_2319269_25);
+Obj v_2319271_25 = PRIM_CDR(v_2319270_25);
+Obj v_2319272_25 = PRIM_EQ(Nil, v_2319271_25);
+if (True == v_2319272_25) {
+Obj v_2319273_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319273_25;
 R[1] = v_remain;
-saveCont(co, clofun121, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v_pkg);
+saveCont(co, clofun128, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316905_25);
+coraCall0(co, v_2317555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316905_25);
+coraCall0(co, v_2317555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316905_25);
+coraCall0(co, v_2317555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316905_25);
+coraCall0(co, v_2317555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316905_25);
+coraCall0(co, v_2317555_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318422_25= co->res;
+Obj v_2319274_25= co->res;
 Obj v_remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
@@ -1388,7 +1401,7 @@ return;
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1398,7 +1411,7 @@ return;
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1408,133 +1421,133 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 9, R);
+saveCont(co, clofun126, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v_2318403_25= co->res;
+Obj v_2319255_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun118, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun125, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj v_2318402_25= co->res;
-Obj v_2318399_25 = R[1];
+Obj v_2319254_25= co->res;
+Obj v_2319251_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2318399_25, v_2318402_25);
+saveCont(co, clofun126, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319251_25, v_2319254_25);
 return;
 }
 case 3:
 {
-Obj v_2318400_25= co->res;
-Obj v_2318399_25 = R[1];
+Obj v_2319252_25= co->res;
+Obj v_2319251_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
-Obj v_2318401_25 = PRIM_CAR(v_2318400_25);
-R[1] = v_2318399_25;
+Obj v_2319253_25 = PRIM_CAR(v_2319252_25);
+R[1] = v_2319251_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun119, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_2318401_25);
+saveCont(co, clofun126, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319253_25);
 return;
 }
 case 4:
 {
-Obj v_2318399_25= co->res;
+Obj v_2319251_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-R[1] = v_2318399_25;
+R[1] = v_2319251_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun119, 3, R);
+saveCont(co, clofun126, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 23)), v_bc);
 return;
 }
 case 5:
 {
-Obj v_2318398_25= co->res;
+Obj v_2319250_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_bc);
+saveCont(co, clofun126, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), v_bc);
 return;
 }
 case 6:
 {
-Obj v_2318397_25= co->res;
+Obj v_2319249_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 5, R);
+saveCont(co, clofun126, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v_2318394_25= co->res;
+Obj v_2319246_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun117, 1, 1, v_to), v_bc);
+saveCont(co, clofun126, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun124, 1, 1, v_to), v_bc);
 return;
 }
 case 8:
 {
-Obj v_2318393_25= co->res;
+Obj v_2319245_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 7, R);
+saveCont(co, clofun126, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj v_2318392_25= co->res;
+Obj v_2319244_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 8, R);
+saveCont(co, clofun126, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1546,19 +1559,19 @@ return;
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v_2318395_25 = PRIM_CAR(v_group);
-saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2318395_25);
+Obj v_2319247_25 = PRIM_CAR(v_group);
+saveCont(co, clofun124, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319247_25);
 return;
 }
 case 1:
 {
-Obj v_2318396_25= co->res;
+Obj v_2319248_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1566,7 +1579,7 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1578,13 +1591,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 14, R);
+saveCont(co, clofun123, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v_2318390_25= co->res;
+Obj v_2319242_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1592,86 +1605,86 @@ return;
 }
 case 2:
 {
-Obj v_2318389_25= co->res;
+Obj v_2319241_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun116, 1, R);
+saveCont(co, clofun123, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2318388_25= co->res;
+Obj v_2319240_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
-saveCont(co, clofun116, 2, R);
+saveCont(co, clofun123, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj v_2318387_25= co->res;
+Obj v_2319239_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 3, R);
+saveCont(co, clofun123, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v_2318386_25= co->res;
+Obj v_2319238_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 4, R);
+saveCont(co, clofun123, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v_2318385_25= co->res;
+Obj v_2319237_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 5, R);
+saveCont(co, clofun123, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_nframe);
 return;
 }
 case 7:
 {
-Obj v_2318384_25= co->res;
+Obj v_2319236_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun116, 6, R);
+saveCont(co, clofun123, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 8:
 {
-Obj v_2318383_25= co->res;
+Obj v_2319235_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun116, 7, R);
+saveCont(co, clofun123, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 9:
 {
-Obj v_2318374_25= co->res;
+Obj v_2319226_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1679,13 +1692,13 @@ Obj v_to = R[4];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun116, 8, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun115, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+saveCont(co, clofun123, 8, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun122, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 10:
 {
-Obj v_2318373_25= co->res;
+Obj v_2319225_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1694,13 +1707,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 9, R);
+saveCont(co, clofun123, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 11:
 {
-Obj v_2318372_25= co->res;
+Obj v_2319224_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1709,13 +1722,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2318372_25);
+saveCont(co, clofun123, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319224_25);
 return;
 }
 case 12:
 {
-Obj v_2318371_25= co->res;
+Obj v_2319223_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1724,13 +1737,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_globals);
+saveCont(co, clofun123, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_globals);
 return;
 }
 case 13:
 {
-Obj v_2318370_25= co->res;
+Obj v_2319222_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1739,13 +1752,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 12, R);
+saveCont(co, clofun123, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 14:
 {
-Obj v_2318369_25= co->res;
+Obj v_2319221_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1754,14 +1767,14 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 13, R);
+saveCont(co, clofun123, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1769,99 +1782,99 @@ Obj v_acc = R[1];
 Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun115, 7, R);
+saveCont(co, clofun122, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v_2318381_25= co->res;
+Obj v_2319233_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318382_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318382_25);
+Obj v_2319234_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319234_25);
 return;
 }
 case 2:
 {
-Obj v_2318380_25= co->res;
+Obj v_2319232_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun122, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v_2318379_25= co->res;
+Obj v_2319231_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2318379_25);
+saveCont(co, clofun122, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319231_25);
 return;
 }
 case 4:
 {
-Obj v_2318378_25= co->res;
+Obj v_2319230_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2318378_25);
+saveCont(co, clofun122, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319230_25);
 return;
 }
 case 5:
 {
-Obj v_2318377_25= co->res;
+Obj v_2319229_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun122, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 25)), v_sym);
 return;
 }
 case 6:
 {
-Obj v_2318376_25= co->res;
+Obj v_2319228_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun115, 5, R);
+saveCont(co, clofun122, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v_2318375_25= co->res;
+Obj v_2319227_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun122, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v_2318347_25 = PRIM_CAR(v_group);
-Obj v_label = v_2318347_25;
+Obj v_2319199_25 = PRIM_CAR(v_group);
+Obj v_label = v_2319199_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun114, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_group);
+saveCont(co, clofun121, 13, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_group);
 return;
 }
 case 1:
 {
-Obj v_2318367_25= co->res;
+Obj v_2319219_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1869,28 +1882,28 @@ return;
 }
 case 2:
 {
-Obj v_2318366_25= co->res;
+Obj v_2319218_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun121, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2318365_25= co->res;
+Obj v_2319217_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
-saveCont(co, clofun114, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun113, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2318365_25);
+saveCont(co, clofun121, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun120, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319217_25);
 return;
 }
 case 4:
 {
-Obj v_2318357_25= co->res;
+Obj v_2319209_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1899,13 +1912,13 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
+saveCont(co, clofun121, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 5:
 {
-Obj v_2318356_25= co->res;
+Obj v_2319208_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1914,13 +1927,13 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun121, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v_2318355_25= co->res;
+Obj v_2319207_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1931,14 +1944,14 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun114, 5, R);
+saveCont(co, clofun121, 5, R);
 Obj __args[5] = {v_globals, v_label, v_params, v_to, v_first_2dstmt};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2318354_25= co->res;
+Obj v_2319206_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1951,14 +1964,14 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun114, 6, R);
+saveCont(co, clofun121, 6, R);
 Obj __args[5] = {v_globals, v_label, Nil, v_to, v_params};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v_2318353_25= co->res;
+Obj v_2319205_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1971,13 +1984,13 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun114, 7, R);
+saveCont(co, clofun121, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v_2318352_25= co->res;
+Obj v_2319204_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1990,13 +2003,13 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun114, 8, R);
+saveCont(co, clofun121, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v_2318351_25= co->res;
+Obj v_2319203_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2009,65 +2022,65 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun114, 9, R);
+saveCont(co, clofun121, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v_2318350_25= co->res;
+Obj v_2319202_25= co->res;
 Obj v_params = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
 Obj v_lam = R[4];
 Obj v_to = R[5];
-Obj v_first_2dstmt = v_2318350_25;
+Obj v_first_2dstmt = v_2319202_25;
 R[1] = v_params;
 R[2] = v_first_2dstmt;
 R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun114, 10, R);
+saveCont(co, clofun121, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), v_to, v_label);
 return;
 }
 case 12:
 {
-Obj v_2318349_25= co->res;
+Obj v_2319201_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
-Obj v_params = v_2318349_25;
+Obj v_params = v_2319201_25;
 R[1] = v_params;
 R[2] = v_globals;
 R[3] = v_label;
 R[4] = v_lam;
 R[5] = v_to;
-saveCont(co, clofun114, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_lam);
+saveCont(co, clofun121, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_lam);
 return;
 }
 case 13:
 {
-Obj v_2318348_25= co->res;
+Obj v_2319200_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-Obj v_lam = v_2318348_25;
+Obj v_lam = v_2319200_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun114, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
+saveCont(co, clofun121, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_lam);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2075,222 +2088,222 @@ Obj v_acc = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 6, R);
+saveCont(co, clofun120, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v_2318363_25= co->res;
+Obj v_2319215_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318364_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318364_25);
+Obj v_2319216_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319216_25);
 return;
 }
 case 2:
 {
-Obj v_2318362_25= co->res;
+Obj v_2319214_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun113, 1, R);
+saveCont(co, clofun120, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2318361_25= co->res;
+Obj v_2319213_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun113, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2318361_25, closureRef(R[0], 3), v_cont};
+saveCont(co, clofun120, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319213_25, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 41)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2318360_25= co->res;
+Obj v_2319212_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
+saveCont(co, clofun120, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v_2318359_25= co->res;
+Obj v_2319211_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 4, R);
+saveCont(co, clofun120, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v_2318358_25= co->res;
+Obj v_2319210_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 5, R);
+saveCont(co, clofun120, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316897_25 = R[1];
-Obj v_2316898_25 = R[2];
-Obj v_2318341_25 = PRIM_EQ(Nil, v_2316898_25);
-if (True == v_2318341_25) {
+Obj v_2317547_25 = R[1];
+Obj v_2317548_25 = R[2];
+Obj v_2319193_25 = PRIM_EQ(Nil, v_2317548_25);
+if (True == v_2319193_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318342_25 = PRIM_ISCONS(v_2316898_25);
-if (True == v_2318342_25) {
-Obj v_2318343_25 = PRIM_CAR(v_2316898_25);
-Obj v_x = v_2318343_25;
-Obj v_2318344_25 = PRIM_CDR(v_2316898_25);
-Obj v_y = v_2318344_25;
-R[1] = v_2316897_25;
+Obj v_2319194_25 = PRIM_ISCONS(v_2317548_25);
+if (True == v_2319194_25) {
+Obj v_2319195_25 = PRIM_CAR(v_2317548_25);
+Obj v_x = v_2319195_25;
+Obj v_2319196_25 = PRIM_CDR(v_2317548_25);
+Obj v_y = v_2319196_25;
+R[1] = v_2317547_25;
 R[2] = v_y;
-saveCont(co, clofun112, 1, R);
-coraCall1(co, v_2316897_25, v_x);
+saveCont(co, clofun119, 1, R);
+coraCall1(co, v_2317547_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318345_25= co->res;
-Obj v_2316897_25 = R[1];
+Obj v_2319197_25= co->res;
+Obj v_2317547_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2316897_25, v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2317547_25, v_y);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun111, 5, R);
+saveCont(co, clofun118, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2318339_25= co->res;
+Obj v_2319191_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2318339_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319191_25);
 return;
 }
 case 2:
 {
-Obj v_2318338_25= co->res;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2318338_25);
+Obj v_2319190_25= co->res;
+saveCont(co, clofun118, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319190_25);
 return;
 }
 case 3:
 {
-Obj v_2318337_25= co->res;
-saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2318337_25);
+Obj v_2319189_25= co->res;
+saveCont(co, clofun118, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319189_25);
 return;
 }
 case 4:
 {
-Obj v_2318336_25= co->res;
-saveCont(co, clofun111, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2318336_25);
+Obj v_2319188_25= co->res;
+saveCont(co, clofun118, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319188_25);
 return;
 }
 case 5:
 {
-Obj v_2318335_25= co->res;
+Obj v_2319187_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun111, 4, R);
-coraCall1(co, v_2318335_25, v_exp);
+saveCont(co, clofun118, 4, R);
+coraCall1(co, v_2319187_25, v_exp);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_exp);
+saveCont(co, clofun117, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2318333_25= co->res;
+Obj v_2319185_25= co->res;
 Obj v_obj = R[1];
-Obj v_fns = v_2318333_25;
+Obj v_fns = v_2319185_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj v_2318332_25= co->res;
+Obj v_2319184_25= co->res;
 Obj v_exp = R[1];
-Obj v_obj = v_2318332_25;
+Obj v_obj = v_2319184_25;
 R[1] = v_obj;
-saveCont(co, clofun110, 1, R);
+saveCont(co, clofun117, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v_exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316893_25 = R[1];
-Obj v_2316894_25 = R[2];
-Obj v_2318325_25 = PRIM_EQ(Nil, v_2316894_25);
-if (True == v_2318325_25) {
-coraReturn(co, v_2316893_25);
+Obj v_2317543_25 = R[1];
+Obj v_2317544_25 = R[2];
+Obj v_2319177_25 = PRIM_EQ(Nil, v_2317544_25);
+if (True == v_2319177_25) {
+coraReturn(co, v_2317543_25);
 return;
 } else {
-Obj v_2318326_25 = PRIM_ISCONS(v_2316894_25);
-if (True == v_2318326_25) {
-Obj v_2318327_25 = PRIM_CAR(v_2316894_25);
-Obj v_hd = v_2318327_25;
-Obj v_2318328_25 = PRIM_CDR(v_2316894_25);
-Obj v_more = v_2318328_25;
-Obj v_2318329_25 = makeCons(co->gc, v_2316893_25, Nil);
-Obj v_2318330_25 = makeCons(co->gc, v_hd, v_2318329_25);
+Obj v_2319178_25 = PRIM_ISCONS(v_2317544_25);
+if (True == v_2319178_25) {
+Obj v_2319179_25 = PRIM_CAR(v_2317544_25);
+Obj v_hd = v_2319179_25;
+Obj v_2319180_25 = PRIM_CDR(v_2317544_25);
+Obj v_more = v_2319180_25;
+Obj v_2319181_25 = makeCons(co->gc, v_2317543_25, Nil);
+Obj v_2319182_25 = makeCons(co->gc, v_hd, v_2319181_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2318330_25, v_more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319182_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2298,129 +2311,132 @@ return;
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun108, 6, R);
+saveCont(co, clofun115, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v_2318323_25= co->res;
+Obj v_2319175_25= co->res;
 Obj v_v = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v_2318322_25= co->res;
+Obj v_2319174_25= co->res;
 Obj v_v = R[1];
-Obj v_e2 = v_2318322_25;
+Obj v_e2 = v_2319174_25;
 R[1] = v_v;
-saveCont(co, clofun108, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, v_e2);
+saveCont(co, clofun115, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_v, v_e2);
 return;
 }
 case 3:
 {
-Obj v_2318321_25= co->res;
+Obj v_2319173_25= co->res;
 Obj v_v = R[1];
-Obj v_e1 = v_2318321_25;
+Obj v_e1 = v_2319173_25;
 R[1] = v_v;
-saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), Nil, v_e1);
+saveCont(co, clofun115, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v_e1);
 return;
 }
 case 4:
 {
-Obj v_2318320_25= co->res;
+Obj v_2319172_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
-saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, v_exp);
+saveCont(co, clofun115, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, v_exp);
 return;
 }
 case 5:
 {
-Obj v_2318319_25= co->res;
+Obj v_2319171_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_exp;
 R[2] = v_v;
-saveCont(co, clofun108, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), Nil);
+saveCont(co, clofun115, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v_2318318_25= co->res;
+Obj v_2319170_25= co->res;
 Obj v_exp = R[1];
-Obj v_v = v_2318318_25;
+Obj v_v = v_2319170_25;
 R[1] = v_exp;
 R[2] = v_v;
-saveCont(co, clofun108, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+saveCont(co, clofun115, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), Nil, v_exp);
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_exp, globalRef(co, getBinding(co, packageID, 71)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_exp, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), Nil, v_exp);
 return;
 }
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
+Obj v_2319164_25 = primGenSym(co);
+Obj v_used = v_2319164_25;
+Obj v_2319165_25 = primSet(co, v_used, Nil);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), Nil, v_globals, v_exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), Nil, v_used, v_globals, v_exp);
 return;
 }
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2428,13 +2444,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
-saveCont(co, clofun103, 3, R);
+saveCont(co, clofun110, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v_2318312_25= co->res;
+Obj v_2319162_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
@@ -2442,27 +2458,27 @@ return;
 }
 case 2:
 {
-Obj v_2318311_25= co->res;
+Obj v_2319161_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
-saveCont(co, clofun103, 1, R);
+saveCont(co, clofun110, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v_2318310_25= co->res;
+Obj v_2319160_25= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
-saveCont(co, clofun103, 2, R);
+saveCont(co, clofun110, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2470,13 +2486,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun109, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v_2318308_25= co->res;
+Obj v_2319158_25= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2486,157 +2502,157 @@ return;
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316887_25 = R[1];
-Obj v_2316888_25 = R[2];
-Obj v_2316889_25 = R[3];
-Obj v_2316890_25 = R[4];
-Obj v_2316891_25 = R[5];
-Obj v_2316892_25 = makeNative(co->gc, 1, clofun100, 0, 0);
-Obj v_2318286_25 = PRIM_ISCONS(v_2316891_25);
-if (True == v_2318286_25) {
-Obj v_2318287_25 = PRIM_CAR(v_2316891_25);
-Obj v_2318288_25 = PRIM_EQ(getBinding(co, packageID, 63).name, v_2318287_25);
-if (True == v_2318288_25) {
-Obj v_2318289_25 = PRIM_CDR(v_2316891_25);
-Obj v_2318290_25 = PRIM_ISCONS(v_2318289_25);
-if (True == v_2318290_25) {
-Obj v_2318291_25 = PRIM_CDR(v_2316891_25);
-Obj v_2318292_25 = PRIM_CAR(v_2318291_25);
-Obj v_var = v_2318292_25;
-Obj v_2318293_25 = PRIM_CDR(v_2316891_25);
-Obj v_2318294_25 = PRIM_CDR(v_2318293_25);
-Obj v_2318295_25 = PRIM_ISCONS(v_2318294_25);
-if (True == v_2318295_25) {
-Obj v_2318296_25 = PRIM_CDR(v_2316891_25);
-Obj v_2318297_25 = PRIM_CDR(v_2318296_25);
-Obj v_2318298_25 = PRIM_CAR(v_2318297_25);
-Obj v_body = v_2318298_25;
-Obj v_2318299_25 = PRIM_CDR(v_2316891_25);
-Obj v_2318300_25 = PRIM_CDR(v_2318299_25);
-Obj v_2318301_25 = PRIM_CDR(v_2318300_25);
-Obj v_fvs = v_2318301_25;
+Obj v_2317537_25 = R[1];
+Obj v_2317538_25 = R[2];
+Obj v_2317539_25 = R[3];
+Obj v_2317540_25 = R[4];
+Obj v_2317541_25 = R[5];
+Obj v_2317542_25 = makeNative(co->gc, 1, clofun107, 0, 0);
+Obj v_2319136_25 = PRIM_ISCONS(v_2317541_25);
+if (True == v_2319136_25) {
+Obj v_2319137_25 = PRIM_CAR(v_2317541_25);
+Obj v_2319138_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319137_25);
+if (True == v_2319138_25) {
+Obj v_2319139_25 = PRIM_CDR(v_2317541_25);
+Obj v_2319140_25 = PRIM_ISCONS(v_2319139_25);
+if (True == v_2319140_25) {
+Obj v_2319141_25 = PRIM_CDR(v_2317541_25);
+Obj v_2319142_25 = PRIM_CAR(v_2319141_25);
+Obj v_var = v_2319142_25;
+Obj v_2319143_25 = PRIM_CDR(v_2317541_25);
+Obj v_2319144_25 = PRIM_CDR(v_2319143_25);
+Obj v_2319145_25 = PRIM_ISCONS(v_2319144_25);
+if (True == v_2319145_25) {
+Obj v_2319146_25 = PRIM_CDR(v_2317541_25);
+Obj v_2319147_25 = PRIM_CDR(v_2319146_25);
+Obj v_2319148_25 = PRIM_CAR(v_2319147_25);
+Obj v_body = v_2319148_25;
+Obj v_2319149_25 = PRIM_CDR(v_2317541_25);
+Obj v_2319150_25 = PRIM_CDR(v_2319149_25);
+Obj v_2319151_25 = PRIM_CDR(v_2319150_25);
+Obj v_fvs = v_2319151_25;
 R[1] = v_var;
 R[2] = v_fvs;
-R[3] = v_2316887_25;
-R[4] = v_2316888_25;
-R[5] = v_2316889_25;
-R[6] = v_2316890_25;
+R[3] = v_2317537_25;
+R[4] = v_2317538_25;
+R[5] = v_2317539_25;
+R[6] = v_2317540_25;
 R[7] = v_body;
-saveCont(co, clofun101, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316890_25, makeCString(co->gc, "Obj "));
+saveCont(co, clofun108, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317540_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316892_25);
+coraCall0(co, v_2317542_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316892_25);
+coraCall0(co, v_2317542_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316892_25);
+coraCall0(co, v_2317542_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316892_25);
+coraCall0(co, v_2317542_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318306_25= co->res;
-Obj v_2316887_25 = R[1];
-Obj v_2316888_25 = R[2];
-Obj v_2316889_25 = R[3];
-Obj v_2316890_25 = R[4];
+Obj v_2319156_25= co->res;
+Obj v_2317537_25 = R[1];
+Obj v_2317538_25 = R[2];
+Obj v_2317539_25 = R[3];
+Obj v_2317540_25 = R[4];
 Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v_2316887_25, v_2316888_25, v_2316889_25, v_2316890_25, v_body};
+Obj __args[5] = {v_2317537_25, v_2317538_25, v_2317539_25, v_2317540_25, v_body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v_2318305_25= co->res;
+Obj v_2319155_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2316887_25 = R[2];
-Obj v_2316888_25 = R[3];
-Obj v_2316889_25 = R[4];
-Obj v_2316890_25 = R[5];
+Obj v_2317537_25 = R[2];
+Obj v_2317538_25 = R[3];
+Obj v_2317539_25 = R[4];
+Obj v_2317540_25 = R[5];
 Obj v_body = R[6];
-R[1] = v_2316887_25;
-R[2] = v_2316888_25;
-R[3] = v_2316889_25;
-R[4] = v_2316890_25;
+R[1] = v_2317537_25;
+R[2] = v_2317538_25;
+R[3] = v_2317539_25;
+R[4] = v_2317540_25;
 R[5] = v_body;
-saveCont(co, clofun101, 1, R);
-Obj __args[5] = {v_2316887_25, v_2316888_25, v_2316889_25, v_2316890_25, v_fvs};
+saveCont(co, clofun108, 1, R);
+Obj __args[5] = {v_2317537_25, v_2317538_25, v_2317539_25, v_2317540_25, v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318304_25= co->res;
+Obj v_2319154_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2316887_25 = R[2];
-Obj v_2316888_25 = R[3];
-Obj v_2316889_25 = R[4];
-Obj v_2316890_25 = R[5];
+Obj v_2317537_25 = R[2];
+Obj v_2317538_25 = R[3];
+Obj v_2317539_25 = R[4];
+Obj v_2317540_25 = R[5];
 Obj v_body = R[6];
 R[1] = v_fvs;
-R[2] = v_2316887_25;
-R[3] = v_2316888_25;
-R[4] = v_2316889_25;
-R[5] = v_2316890_25;
+R[2] = v_2317537_25;
+R[3] = v_2317538_25;
+R[4] = v_2317539_25;
+R[5] = v_2317540_25;
 R[6] = v_body;
-saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2316890_25, makeCString(co->gc, "= co->res;\n"));
+saveCont(co, clofun108, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317540_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v_2318302_25= co->res;
+Obj v_2319152_25= co->res;
 Obj v_var = R[1];
 Obj v_fvs = R[2];
-Obj v_2316887_25 = R[3];
-Obj v_2316888_25 = R[4];
-Obj v_2316889_25 = R[5];
-Obj v_2316890_25 = R[6];
+Obj v_2317537_25 = R[3];
+Obj v_2317538_25 = R[4];
+Obj v_2317539_25 = R[5];
+Obj v_2317540_25 = R[6];
 Obj v_body = R[7];
-Obj v_2318303_25 = PRIM_CAR(v_var);
+Obj v_2319153_25 = PRIM_CAR(v_var);
 R[1] = v_fvs;
-R[2] = v_2316887_25;
-R[3] = v_2316888_25;
-R[4] = v_2316889_25;
-R[5] = v_2316890_25;
+R[2] = v_2317537_25;
+R[3] = v_2317538_25;
+R[4] = v_2317539_25;
+R[5] = v_2317540_25;
 R[6] = v_body;
-saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2316890_25, v_2318303_25);
+saveCont(co, clofun108, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2317540_25, v_2319153_25);
 return;
 }
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2645,109 +2661,109 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v_2318272_25 = primGenSym(co);
-Obj v_generate_2dinst_2dlist_2dh = v_2318272_25;
-Obj v_2318283_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun98, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+Obj v_2319122_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2319122_25;
+Obj v_2319133_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun105, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
 R[1] = v_l;
-saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_generate_2dinst_2dlist_2dh);
+saveCont(co, clofun106, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_generate_2dinst_2dlist_2dh);
 return;
 }
 case 1:
 {
-Obj v_2318284_25= co->res;
+Obj v_2319134_25= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318284_25, v_l);
+coraCall1(co, v_2319134_25, v_l);
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318273_25 = PRIM_EQ(Nil, v_x);
-if (True == v_2318273_25) {
+Obj v_2319123_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2319123_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318274_25 = PRIM_ISCONS(v_x);
-if (True == v_2318274_25) {
-Obj v_2318275_25 = PRIM_CAR(v_x);
-Obj v_a = v_2318275_25;
-Obj v_2318276_25 = PRIM_CDR(v_x);
-Obj v_b = v_2318276_25;
+Obj v_2319124_25 = PRIM_ISCONS(v_x);
+if (True == v_2319124_25) {
+Obj v_2319125_25 = PRIM_CAR(v_x);
+Obj v_a = v_2319125_25;
+Obj v_2319126_25 = PRIM_CDR(v_x);
+Obj v_b = v_2319126_25;
 R[1] = v_b;
-saveCont(co, clofun98, 5, R);
+saveCont(co, clofun105, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318281_25= co->res;
+Obj v_2319131_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318281_25, v_b);
+coraCall1(co, v_2319131_25, v_b);
 return;
 }
 case 2:
 {
-Obj v_2318280_25= co->res;
+Obj v_2319130_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
+saveCont(co, clofun105, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318282_25= co->res;
+Obj v_2319132_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2318282_25, v_b);
+coraCall1(co, v_2319132_25, v_b);
 return;
 }
 case 4:
 {
-Obj v_2318278_25= co->res;
+Obj v_2319128_25= co->res;
 Obj v_b = R[1];
-Obj v_2318279_25 = primNot(v_2318278_25);
-if (True == v_2318279_25) {
+Obj v_2319129_25 = primNot(v_2319128_25);
+if (True == v_2319129_25) {
 R[1] = v_b;
-saveCont(co, clofun98, 2, R);
+saveCont(co, clofun105, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 R[1] = v_b;
-saveCont(co, clofun98, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
+saveCont(co, clofun105, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v_2318277_25= co->res;
+Obj v_2319127_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun98, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_b);
+saveCont(co, clofun105, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_b);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2756,318 +2772,318 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v_2317985_25 = primGenSym(co);
-Obj v_generate_2dinst_2dh = v_2317985_25;
-Obj v_2318269_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun96, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+Obj v_2318835_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2318835_25;
+Obj v_2319119_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun103, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
-saveCont(co, clofun97, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_generate_2dinst_2dh);
+saveCont(co, clofun104, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_generate_2dinst_2dh);
 return;
 }
 case 1:
 {
-Obj v_2318270_25= co->res;
+Obj v_2319120_25= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2318270_25, v_x1, v_env1);
+coraCall2(co, v_2319120_25, v_x1, v_env1);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v_2317986_25 = primIsSymbol(v_x2);
-if (True == v_2317986_25) {
+Obj v_2318836_25 = primIsSymbol(v_x2);
+if (True == v_2318836_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v_2316873_25 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v_2318256_25 = PRIM_ISCONS(v_x2);
-if (True == v_2318256_25) {
-Obj v_2318257_25 = PRIM_CAR(v_x2);
-Obj v_2318258_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318257_25);
-if (True == v_2318258_25) {
-Obj v_2318259_25 = PRIM_CDR(v_x2);
-Obj v_2318260_25 = PRIM_ISCONS(v_2318259_25);
-if (True == v_2318260_25) {
-Obj v_2318261_25 = PRIM_CDR(v_x2);
-Obj v_2318262_25 = PRIM_CAR(v_2318261_25);
-Obj v_x = v_2318262_25;
-Obj v_2318263_25 = PRIM_CDR(v_x2);
-Obj v_2318264_25 = PRIM_CDR(v_2318263_25);
-Obj v_2318265_25 = PRIM_EQ(Nil, v_2318264_25);
-if (True == v_2318265_25) {
+Obj v_2317523_25 = makeNative(co->gc, 2, clofun102, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2319106_25 = PRIM_ISCONS(v_x2);
+if (True == v_2319106_25) {
+Obj v_2319107_25 = PRIM_CAR(v_x2);
+Obj v_2319108_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319107_25);
+if (True == v_2319108_25) {
+Obj v_2319109_25 = PRIM_CDR(v_x2);
+Obj v_2319110_25 = PRIM_ISCONS(v_2319109_25);
+if (True == v_2319110_25) {
+Obj v_2319111_25 = PRIM_CDR(v_x2);
+Obj v_2319112_25 = PRIM_CAR(v_2319111_25);
+Obj v_x = v_2319112_25;
+Obj v_2319113_25 = PRIM_CDR(v_x2);
+Obj v_2319114_25 = PRIM_CDR(v_2319113_25);
+Obj v_2319115_25 = PRIM_EQ(Nil, v_2319114_25);
+if (True == v_2319115_25) {
 R[1] = v_x;
-saveCont(co, clofun96, 3, R);
+saveCont(co, clofun103, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316873_25);
+coraCall0(co, v_2317523_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316873_25);
+coraCall0(co, v_2317523_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316873_25);
+coraCall0(co, v_2317523_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316873_25);
+coraCall0(co, v_2317523_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318268_25= co->res;
+Obj v_2319118_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v_2318267_25= co->res;
-saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2318267_25);
+Obj v_2319117_25= co->res;
+saveCont(co, clofun103, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319117_25);
 return;
 }
 case 3:
 {
-Obj v_2318266_25= co->res;
+Obj v_2319116_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun96, 2, R);
+saveCont(co, clofun103, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316874_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v_2318244_25 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v_2318244_25) {
-Obj v_2318245_25 = PRIM_CAR(closureRef(R[0], 4));
-Obj v_2318246_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318245_25);
-if (True == v_2318246_25) {
-Obj v_2318247_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318248_25 = PRIM_ISCONS(v_2318247_25);
-if (True == v_2318248_25) {
-Obj v_2318249_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318250_25 = PRIM_CAR(v_2318249_25);
-Obj v_idx = v_2318250_25;
-Obj v_2318251_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2318252_25 = PRIM_CDR(v_2318251_25);
-Obj v_2318253_25 = PRIM_EQ(Nil, v_2318252_25);
-if (True == v_2318253_25) {
+Obj v_2317524_25 = makeNative(co->gc, 2, clofun101, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2319094_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2319094_25) {
+Obj v_2319095_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2319096_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319095_25);
+if (True == v_2319096_25) {
+Obj v_2319097_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319098_25 = PRIM_ISCONS(v_2319097_25);
+if (True == v_2319098_25) {
+Obj v_2319099_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319100_25 = PRIM_CAR(v_2319099_25);
+Obj v_idx = v_2319100_25;
+Obj v_2319101_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319102_25 = PRIM_CDR(v_2319101_25);
+Obj v_2319103_25 = PRIM_EQ(Nil, v_2319102_25);
+if (True == v_2319103_25) {
 R[1] = v_idx;
-saveCont(co, clofun95, 2, R);
+saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316874_25);
+coraCall0(co, v_2317524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316874_25);
+coraCall0(co, v_2317524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316874_25);
+coraCall0(co, v_2317524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316874_25);
+coraCall0(co, v_2317524_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318255_25= co->res;
+Obj v_2319105_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318254_25= co->res;
+Obj v_2319104_25= co->res;
 Obj v_idx = R[1];
-saveCont(co, clofun95, 1, R);
+saveCont(co, clofun102, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_idx);
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316875_25 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2318220_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2318220_25) {
-Obj v_2318221_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2318222_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318221_25);
-if (True == v_2318222_25) {
-Obj v_2318223_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318224_25 = PRIM_ISCONS(v_2318223_25);
-if (True == v_2318224_25) {
-Obj v_2318225_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318226_25 = PRIM_CAR(v_2318225_25);
-Obj v_x = v_2318226_25;
-Obj v_2318227_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2318228_25 = PRIM_CDR(v_2318227_25);
-Obj v_2318229_25 = PRIM_EQ(Nil, v_2318228_25);
-if (True == v_2318229_25) {
-Obj v_2318230_25 = primIsSymbol(v_x);
-if (True == v_2318230_25) {
+Obj v_2317525_25 = makeNative(co->gc, 4, clofun100, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319070_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2319070_25) {
+Obj v_2319071_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2319072_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319071_25);
+if (True == v_2319072_25) {
+Obj v_2319073_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319074_25 = PRIM_ISCONS(v_2319073_25);
+if (True == v_2319074_25) {
+Obj v_2319075_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319076_25 = PRIM_CAR(v_2319075_25);
+Obj v_x = v_2319076_25;
+Obj v_2319077_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319078_25 = PRIM_CDR(v_2319077_25);
+Obj v_2319079_25 = PRIM_EQ(Nil, v_2319078_25);
+if (True == v_2319079_25) {
+Obj v_2319080_25 = primIsSymbol(v_x);
+if (True == v_2319080_25) {
 R[1] = v_x;
-saveCont(co, clofun94, 3, R);
+saveCont(co, clofun101, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = v_x;
-saveCont(co, clofun94, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_x);
+saveCont(co, clofun101, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316875_25);
+coraCall0(co, v_2317525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316875_25);
+coraCall0(co, v_2317525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316875_25);
+coraCall0(co, v_2317525_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316875_25);
+coraCall0(co, v_2317525_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318233_25= co->res;
+Obj v_2319083_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v_2318232_25= co->res;
-saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318232_25);
+Obj v_2319082_25= co->res;
+saveCont(co, clofun101, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319082_25);
 return;
 }
 case 3:
 {
-Obj v_2318231_25= co->res;
+Obj v_2319081_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun94, 2, R);
+saveCont(co, clofun101, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2318236_25= co->res;
+Obj v_2319086_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v_2318235_25= co->res;
+Obj v_2319085_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun94, 4, R);
+saveCont(co, clofun101, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_x);
 return;
 }
 case 6:
 {
-Obj v_2318240_25= co->res;
+Obj v_2319090_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v_2318239_25= co->res;
-saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318239_25);
+Obj v_2319089_25= co->res;
+saveCont(co, clofun101, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319089_25);
 return;
 }
 case 8:
 {
-Obj v_2318238_25= co->res;
+Obj v_2319088_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun94, 7, R);
+saveCont(co, clofun101, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_x);
 return;
 }
 case 9:
 {
-Obj v_2318234_25= co->res;
+Obj v_2319084_25= co->res;
 Obj v_x = R[1];
-if (True == v_2318234_25) {
+if (True == v_2319084_25) {
 R[1] = v_x;
-saveCont(co, clofun94, 5, R);
+saveCont(co, clofun101, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v_2318237_25 = primIsString(v_x);
-if (True == v_2318237_25) {
+Obj v_2319087_25 = primIsString(v_x);
+if (True == v_2319087_25) {
 R[1] = v_x;
-saveCont(co, clofun94, 8, R);
+saveCont(co, clofun101, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v_2318241_25 = PRIM_EQ(v_x, Nil);
-if (True == v_2318241_25) {
+Obj v_2319091_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2319091_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v_2318242_25 = PRIM_EQ(v_x, True);
-if (True == v_2318242_25) {
+Obj v_2319092_25 = PRIM_EQ(v_x, True);
+if (True == v_2319092_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v_2318243_25 = PRIM_EQ(v_x, False);
-if (True == v_2318243_25) {
+Obj v_2319093_25 = PRIM_EQ(v_x, False);
+if (True == v_2319093_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -3078,334 +3094,334 @@ return;
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316876_25 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2318185_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318185_25) {
-Obj v_2318186_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318187_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2318186_25);
-if (True == v_2318187_25) {
-Obj v_2318188_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318189_25 = PRIM_ISCONS(v_2318188_25);
-if (True == v_2318189_25) {
-Obj v_2318190_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318191_25 = PRIM_CAR(v_2318190_25);
-Obj v_a = v_2318191_25;
-Obj v_2318192_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318193_25 = PRIM_CDR(v_2318192_25);
-Obj v_2318194_25 = PRIM_ISCONS(v_2318193_25);
-if (True == v_2318194_25) {
-Obj v_2318195_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318196_25 = PRIM_CDR(v_2318195_25);
-Obj v_2318197_25 = PRIM_CAR(v_2318196_25);
-Obj v_b = v_2318197_25;
-Obj v_2318198_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318199_25 = PRIM_CDR(v_2318198_25);
-Obj v_2318200_25 = PRIM_CDR(v_2318199_25);
-Obj v_2318201_25 = PRIM_ISCONS(v_2318200_25);
-if (True == v_2318201_25) {
-Obj v_2318202_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318203_25 = PRIM_CDR(v_2318202_25);
-Obj v_2318204_25 = PRIM_CDR(v_2318203_25);
-Obj v_2318205_25 = PRIM_CAR(v_2318204_25);
-Obj v_c = v_2318205_25;
-Obj v_2318206_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318207_25 = PRIM_CDR(v_2318206_25);
-Obj v_2318208_25 = PRIM_CDR(v_2318207_25);
-Obj v_2318209_25 = PRIM_CDR(v_2318208_25);
-Obj v_2318210_25 = PRIM_EQ(Nil, v_2318209_25);
-if (True == v_2318210_25) {
+Obj v_2317526_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319035_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319035_25) {
+Obj v_2319036_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319037_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319036_25);
+if (True == v_2319037_25) {
+Obj v_2319038_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319039_25 = PRIM_ISCONS(v_2319038_25);
+if (True == v_2319039_25) {
+Obj v_2319040_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319041_25 = PRIM_CAR(v_2319040_25);
+Obj v_a = v_2319041_25;
+Obj v_2319042_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319043_25 = PRIM_CDR(v_2319042_25);
+Obj v_2319044_25 = PRIM_ISCONS(v_2319043_25);
+if (True == v_2319044_25) {
+Obj v_2319045_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319046_25 = PRIM_CDR(v_2319045_25);
+Obj v_2319047_25 = PRIM_CAR(v_2319046_25);
+Obj v_b = v_2319047_25;
+Obj v_2319048_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319049_25 = PRIM_CDR(v_2319048_25);
+Obj v_2319050_25 = PRIM_CDR(v_2319049_25);
+Obj v_2319051_25 = PRIM_ISCONS(v_2319050_25);
+if (True == v_2319051_25) {
+Obj v_2319052_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319053_25 = PRIM_CDR(v_2319052_25);
+Obj v_2319054_25 = PRIM_CDR(v_2319053_25);
+Obj v_2319055_25 = PRIM_CAR(v_2319054_25);
+Obj v_c = v_2319055_25;
+Obj v_2319056_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319057_25 = PRIM_CDR(v_2319056_25);
+Obj v_2319058_25 = PRIM_CDR(v_2319057_25);
+Obj v_2319059_25 = PRIM_CDR(v_2319058_25);
+Obj v_2319060_25 = PRIM_EQ(Nil, v_2319059_25);
+if (True == v_2319060_25) {
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v_a, closureRef(R[0], 5));
+saveCont(co, clofun100, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316876_25);
+coraCall0(co, v_2317526_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316876_25);
+coraCall0(co, v_2317526_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316876_25);
+coraCall0(co, v_2317526_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316876_25);
+coraCall0(co, v_2317526_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316876_25);
+coraCall0(co, v_2317526_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316876_25);
+coraCall0(co, v_2317526_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318218_25= co->res;
+Obj v_2319068_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_2318219_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
+Obj v_2319069_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v_2318218_25, v_c, v_2318219_25);
+coraCall2(co, v_2319068_25, v_c, v_2319069_25);
 return;
 }
 case 2:
 {
-Obj v_2318217_25= co->res;
+Obj v_2319067_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun93, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
+saveCont(co, clofun100, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318216_25= co->res;
+Obj v_2319066_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun93, 2, R);
+saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2318215_25= co->res;
+Obj v_2319065_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun93, 3, R);
-coraCall2(co, v_2318215_25, v_b, closureRef(R[0], 5));
+saveCont(co, clofun100, 3, R);
+coraCall2(co, v_2319065_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v_2318214_25= co->res;
+Obj v_2319064_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun93, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
+saveCont(co, clofun100, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2318213_25= co->res;
+Obj v_2319063_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun93, 5, R);
+saveCont(co, clofun100, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v_2318212_25= co->res;
+Obj v_2319062_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun93, 6, R);
+saveCont(co, clofun100, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_a);
 return;
 }
 case 8:
 {
-Obj v_2318211_25= co->res;
+Obj v_2319061_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun93, 7, R);
+saveCont(co, clofun100, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316877_25 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318155_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318155_25) {
-Obj v_2318156_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318157_25 = PRIM_ISCONS(v_2318156_25);
-if (True == v_2318157_25) {
-Obj v_2318158_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318159_25 = PRIM_CAR(v_2318158_25);
-Obj v_2318160_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318159_25);
-if (True == v_2318160_25) {
-Obj v_2318161_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318162_25 = PRIM_CDR(v_2318161_25);
-Obj v_2318163_25 = PRIM_ISCONS(v_2318162_25);
-if (True == v_2318163_25) {
-Obj v_2318164_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318165_25 = PRIM_CDR(v_2318164_25);
-Obj v_2318166_25 = PRIM_CAR(v_2318165_25);
-Obj v_f = v_2318166_25;
-Obj v_2318167_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318168_25 = PRIM_CDR(v_2318167_25);
-Obj v_2318169_25 = PRIM_CDR(v_2318168_25);
-Obj v_2318170_25 = PRIM_EQ(Nil, v_2318169_25);
-if (True == v_2318170_25) {
-Obj v_2318171_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_args = v_2318171_25;
+Obj v_2317527_25 = makeNative(co->gc, 4, clofun98, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319005_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319005_25) {
+Obj v_2319006_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319007_25 = PRIM_ISCONS(v_2319006_25);
+if (True == v_2319007_25) {
+Obj v_2319008_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319009_25 = PRIM_CAR(v_2319008_25);
+Obj v_2319010_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319009_25);
+if (True == v_2319010_25) {
+Obj v_2319011_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319012_25 = PRIM_CDR(v_2319011_25);
+Obj v_2319013_25 = PRIM_ISCONS(v_2319012_25);
+if (True == v_2319013_25) {
+Obj v_2319014_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319015_25 = PRIM_CDR(v_2319014_25);
+Obj v_2319016_25 = PRIM_CAR(v_2319015_25);
+Obj v_f = v_2319016_25;
+Obj v_2319017_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319018_25 = PRIM_CDR(v_2319017_25);
+Obj v_2319019_25 = PRIM_CDR(v_2319018_25);
+Obj v_2319020_25 = PRIM_EQ(Nil, v_2319019_25);
+if (True == v_2319020_25) {
+Obj v_2319021_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2319021_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun92, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_f);
+saveCont(co, clofun99, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316877_25);
+coraCall0(co, v_2317527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316877_25);
+coraCall0(co, v_2317527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316877_25);
+coraCall0(co, v_2317527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316877_25);
+coraCall0(co, v_2317527_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316877_25);
+coraCall0(co, v_2317527_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318176_25= co->res;
+Obj v_2319026_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318175_25= co->res;
+Obj v_2319025_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun99, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318179_25= co->res;
+Obj v_2319029_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v_2318178_25= co->res;
+Obj v_2319028_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun92, 3, R);
+saveCont(co, clofun99, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v_2318182_25= co->res;
+Obj v_2319032_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v_2318181_25= co->res;
+Obj v_2319031_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun92, 5, R);
+saveCont(co, clofun99, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2318184_25= co->res;
+Obj v_2319034_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v_2318183_25= co->res;
+Obj v_2319033_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun92, 7, R);
+saveCont(co, clofun99, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2318173_25= co->res;
+Obj v_2319023_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318174_25 = PRIM_EQ(v_f, getBinding(co, packageID, 123).name);
-if (True == v_2318174_25) {
+Obj v_2319024_25 = PRIM_EQ(v_f, getBinding(co, packageID, 126).name);
+if (True == v_2319024_25) {
 R[1] = v_args;
-saveCont(co, clofun92, 2, R);
+saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v_2318177_25 = PRIM_EQ(v_f, getBinding(co, packageID, 111).name);
-if (True == v_2318177_25) {
+Obj v_2319027_25 = PRIM_EQ(v_f, getBinding(co, packageID, 114).name);
+if (True == v_2319027_25) {
 R[1] = v_args;
-saveCont(co, clofun92, 4, R);
+saveCont(co, clofun99, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v_2318180_25 = PRIM_EQ(v_f, getBinding(co, packageID, 120).name);
-if (True == v_2318180_25) {
+Obj v_2319030_25 = PRIM_EQ(v_f, getBinding(co, packageID, 123).name);
+if (True == v_2319030_25) {
 R[1] = v_args;
-saveCont(co, clofun92, 6, R);
+saveCont(co, clofun99, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = v_args;
-saveCont(co, clofun92, 8, R);
+saveCont(co, clofun99, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3414,284 +3430,284 @@ return;
 }
 case 10:
 {
-Obj v_2318172_25= co->res;
+Obj v_2319022_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2318172_25);
+saveCont(co, clofun99, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319022_25);
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316878_25 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318120_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318120_25) {
-Obj v_2318121_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318122_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2318121_25);
-if (True == v_2318122_25) {
-Obj v_2318123_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318124_25 = PRIM_ISCONS(v_2318123_25);
-if (True == v_2318124_25) {
-Obj v_2318125_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318126_25 = PRIM_CAR(v_2318125_25);
-Obj v_a = v_2318126_25;
-Obj v_2318127_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318128_25 = PRIM_CDR(v_2318127_25);
-Obj v_2318129_25 = PRIM_ISCONS(v_2318128_25);
-if (True == v_2318129_25) {
-Obj v_2318130_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318131_25 = PRIM_CDR(v_2318130_25);
-Obj v_2318132_25 = PRIM_CAR(v_2318131_25);
-Obj v_b = v_2318132_25;
-Obj v_2318133_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318134_25 = PRIM_CDR(v_2318133_25);
-Obj v_2318135_25 = PRIM_CDR(v_2318134_25);
-Obj v_2318136_25 = PRIM_ISCONS(v_2318135_25);
-if (True == v_2318136_25) {
-Obj v_2318137_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318138_25 = PRIM_CDR(v_2318137_25);
-Obj v_2318139_25 = PRIM_CDR(v_2318138_25);
-Obj v_2318140_25 = PRIM_CAR(v_2318139_25);
-Obj v_c = v_2318140_25;
-Obj v_2318141_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318142_25 = PRIM_CDR(v_2318141_25);
-Obj v_2318143_25 = PRIM_CDR(v_2318142_25);
-Obj v_2318144_25 = PRIM_CDR(v_2318143_25);
-Obj v_2318145_25 = PRIM_EQ(Nil, v_2318144_25);
-if (True == v_2318145_25) {
+Obj v_2317528_25 = makeNative(co->gc, 5, clofun97, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318970_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318970_25) {
+Obj v_2318971_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318972_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318971_25);
+if (True == v_2318972_25) {
+Obj v_2318973_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318974_25 = PRIM_ISCONS(v_2318973_25);
+if (True == v_2318974_25) {
+Obj v_2318975_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318976_25 = PRIM_CAR(v_2318975_25);
+Obj v_a = v_2318976_25;
+Obj v_2318977_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318978_25 = PRIM_CDR(v_2318977_25);
+Obj v_2318979_25 = PRIM_ISCONS(v_2318978_25);
+if (True == v_2318979_25) {
+Obj v_2318980_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318981_25 = PRIM_CDR(v_2318980_25);
+Obj v_2318982_25 = PRIM_CAR(v_2318981_25);
+Obj v_b = v_2318982_25;
+Obj v_2318983_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318984_25 = PRIM_CDR(v_2318983_25);
+Obj v_2318985_25 = PRIM_CDR(v_2318984_25);
+Obj v_2318986_25 = PRIM_ISCONS(v_2318985_25);
+if (True == v_2318986_25) {
+Obj v_2318987_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318988_25 = PRIM_CDR(v_2318987_25);
+Obj v_2318989_25 = PRIM_CDR(v_2318988_25);
+Obj v_2318990_25 = PRIM_CAR(v_2318989_25);
+Obj v_c = v_2318990_25;
+Obj v_2318991_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318992_25 = PRIM_CDR(v_2318991_25);
+Obj v_2318993_25 = PRIM_CDR(v_2318992_25);
+Obj v_2318994_25 = PRIM_CDR(v_2318993_25);
+Obj v_2318995_25 = PRIM_EQ(Nil, v_2318994_25);
+if (True == v_2318995_25) {
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
-saveCont(co, clofun91, 9, R);
+saveCont(co, clofun98, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316878_25);
+coraCall0(co, v_2317528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316878_25);
+coraCall0(co, v_2317528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316878_25);
+coraCall0(co, v_2317528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316878_25);
+coraCall0(co, v_2317528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316878_25);
+coraCall0(co, v_2317528_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316878_25);
+coraCall0(co, v_2317528_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318154_25= co->res;
+Obj v_2319004_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v_2318153_25= co->res;
+Obj v_2319003_25= co->res;
 Obj v_c = R[1];
-saveCont(co, clofun91, 1, R);
-coraCall2(co, v_2318153_25, v_c, closureRef(R[0], 4));
+saveCont(co, clofun98, 1, R);
+coraCall2(co, v_2319003_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318152_25= co->res;
+Obj v_2319002_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
-saveCont(co, clofun91, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
+saveCont(co, clofun98, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2318151_25= co->res;
+Obj v_2319001_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
-saveCont(co, clofun91, 3, R);
+saveCont(co, clofun98, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v_2318150_25= co->res;
+Obj v_2319000_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_c;
-saveCont(co, clofun91, 4, R);
-coraCall2(co, v_2318150_25, v_b, closureRef(R[0], 4));
+saveCont(co, clofun98, 4, R);
+coraCall2(co, v_2319000_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2318149_25= co->res;
+Obj v_2318999_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun91, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
+saveCont(co, clofun98, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v_2318148_25= co->res;
+Obj v_2318998_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun91, 6, R);
+saveCont(co, clofun98, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v_2318147_25= co->res;
+Obj v_2318997_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun91, 7, R);
-coraCall2(co, v_2318147_25, v_a, closureRef(R[0], 4));
+saveCont(co, clofun98, 7, R);
+coraCall2(co, v_2318997_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v_2318146_25= co->res;
+Obj v_2318996_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
-saveCont(co, clofun91, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
+saveCont(co, clofun98, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316879_25 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v_2318082_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318082_25) {
-Obj v_2318083_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318084_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318083_25);
-if (True == v_2318084_25) {
-Obj v_2318085_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318086_25 = PRIM_ISCONS(v_2318085_25);
-if (True == v_2318086_25) {
-Obj v_2318087_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318088_25 = PRIM_CAR(v_2318087_25);
-Obj v_label = v_2318088_25;
-Obj v_2318089_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318090_25 = PRIM_CDR(v_2318089_25);
-Obj v_2318091_25 = PRIM_ISCONS(v_2318090_25);
-if (True == v_2318091_25) {
-Obj v_2318092_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318093_25 = PRIM_CDR(v_2318092_25);
-Obj v_2318094_25 = PRIM_CAR(v_2318093_25);
-Obj v_nargs = v_2318094_25;
-Obj v_2318095_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318096_25 = PRIM_CDR(v_2318095_25);
-Obj v_2318097_25 = PRIM_CDR(v_2318096_25);
-Obj v_2318098_25 = PRIM_ISCONS(v_2318097_25);
-if (True == v_2318098_25) {
-Obj v_2318099_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318100_25 = PRIM_CDR(v_2318099_25);
-Obj v_2318101_25 = PRIM_CDR(v_2318100_25);
-Obj v_2318102_25 = PRIM_CAR(v_2318101_25);
-Obj v_nframe = v_2318102_25;
-Obj v_2318103_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318104_25 = PRIM_CDR(v_2318103_25);
-Obj v_2318105_25 = PRIM_CDR(v_2318104_25);
-Obj v_2318106_25 = PRIM_CDR(v_2318105_25);
-Obj v_frees = v_2318106_25;
+Obj v_2317529_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2318932_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318932_25) {
+Obj v_2318933_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318934_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318933_25);
+if (True == v_2318934_25) {
+Obj v_2318935_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318936_25 = PRIM_ISCONS(v_2318935_25);
+if (True == v_2318936_25) {
+Obj v_2318937_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318938_25 = PRIM_CAR(v_2318937_25);
+Obj v_label = v_2318938_25;
+Obj v_2318939_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318940_25 = PRIM_CDR(v_2318939_25);
+Obj v_2318941_25 = PRIM_ISCONS(v_2318940_25);
+if (True == v_2318941_25) {
+Obj v_2318942_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318943_25 = PRIM_CDR(v_2318942_25);
+Obj v_2318944_25 = PRIM_CAR(v_2318943_25);
+Obj v_nargs = v_2318944_25;
+Obj v_2318945_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318946_25 = PRIM_CDR(v_2318945_25);
+Obj v_2318947_25 = PRIM_CDR(v_2318946_25);
+Obj v_2318948_25 = PRIM_ISCONS(v_2318947_25);
+if (True == v_2318948_25) {
+Obj v_2318949_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318950_25 = PRIM_CDR(v_2318949_25);
+Obj v_2318951_25 = PRIM_CDR(v_2318950_25);
+Obj v_2318952_25 = PRIM_CAR(v_2318951_25);
+Obj v_nframe = v_2318952_25;
+Obj v_2318953_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318954_25 = PRIM_CDR(v_2318953_25);
+Obj v_2318955_25 = PRIM_CDR(v_2318954_25);
+Obj v_2318956_25 = PRIM_CDR(v_2318955_25);
+Obj v_frees = v_2318956_25;
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_nargs;
 R[4] = v_frees;
-saveCont(co, clofun90, 12, R);
+saveCont(co, clofun97, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316879_25);
+coraCall0(co, v_2317529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316879_25);
+coraCall0(co, v_2317529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316879_25);
+coraCall0(co, v_2317529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316879_25);
+coraCall0(co, v_2317529_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316879_25);
+coraCall0(co, v_2317529_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318119_25= co->res;
+Obj v_2318969_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318118_25= co->res;
+Obj v_2318968_25= co->res;
 Obj v_frees = R[1];
-saveCont(co, clofun90, 1, R);
+saveCont(co, clofun97, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2318116_25= co->res;
+Obj v_2318966_25= co->res;
 Obj v_frees = R[1];
-Obj v_2318117_25 = primNot(v_2318116_25);
-if (True == v_2318117_25) {
+Obj v_2318967_25 = primNot(v_2318966_25);
+if (True == v_2318967_25) {
 R[1] = v_frees;
-saveCont(co, clofun90, 2, R);
+saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3703,89 +3719,89 @@ return;
 }
 case 4:
 {
-Obj v_2318115_25= co->res;
+Obj v_2318965_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun90, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_frees);
+saveCont(co, clofun97, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_frees);
 return;
 }
 case 5:
 {
-Obj v_2318114_25= co->res;
+Obj v_2318964_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318114_25);
+saveCont(co, clofun97, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318964_25);
 return;
 }
 case 6:
 {
-Obj v_2318113_25= co->res;
+Obj v_2318963_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun90, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_frees);
+saveCont(co, clofun97, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_frees);
 return;
 }
 case 7:
 {
-Obj v_2318112_25= co->res;
+Obj v_2318962_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun90, 6, R);
+saveCont(co, clofun97, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v_2318111_25= co->res;
+Obj v_2318961_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_frees;
-saveCont(co, clofun90, 7, R);
+saveCont(co, clofun97, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 9:
 {
-Obj v_2318110_25= co->res;
+Obj v_2318960_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_nargs;
 R[2] = v_frees;
-saveCont(co, clofun90, 8, R);
+saveCont(co, clofun97, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v_2318109_25= co->res;
+Obj v_2318959_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_nargs;
 R[2] = v_frees;
-saveCont(co, clofun90, 9, R);
+saveCont(co, clofun97, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), v_label);
 return;
 }
 case 11:
 {
-Obj v_2318108_25= co->res;
+Obj v_2318958_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
-saveCont(co, clofun90, 10, R);
+saveCont(co, clofun97, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v_2318107_25= co->res;
+Obj v_2318957_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_nargs = R[3];
@@ -3793,549 +3809,549 @@ Obj v_frees = R[4];
 R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
-saveCont(co, clofun90, 11, R);
+saveCont(co, clofun97, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nframe);
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316880_25 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2318061_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318061_25) {
-Obj v_2318062_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318063_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2318062_25);
-if (True == v_2318063_25) {
-Obj v_2318064_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318065_25 = PRIM_ISCONS(v_2318064_25);
-if (True == v_2318065_25) {
-Obj v_2318066_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318067_25 = PRIM_CAR(v_2318066_25);
-Obj v_a = v_2318067_25;
-Obj v_2318068_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318069_25 = PRIM_CDR(v_2318068_25);
-Obj v_2318070_25 = PRIM_ISCONS(v_2318069_25);
-if (True == v_2318070_25) {
-Obj v_2318071_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318072_25 = PRIM_CDR(v_2318071_25);
-Obj v_2318073_25 = PRIM_CAR(v_2318072_25);
-Obj v_b = v_2318073_25;
-Obj v_2318074_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318075_25 = PRIM_CDR(v_2318074_25);
-Obj v_2318076_25 = PRIM_CDR(v_2318075_25);
-Obj v_2318077_25 = PRIM_EQ(Nil, v_2318076_25);
-if (True == v_2318077_25) {
+Obj v_2317530_25 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2318911_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318911_25) {
+Obj v_2318912_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318913_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318912_25);
+if (True == v_2318913_25) {
+Obj v_2318914_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318915_25 = PRIM_ISCONS(v_2318914_25);
+if (True == v_2318915_25) {
+Obj v_2318916_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318917_25 = PRIM_CAR(v_2318916_25);
+Obj v_a = v_2318917_25;
+Obj v_2318918_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318919_25 = PRIM_CDR(v_2318918_25);
+Obj v_2318920_25 = PRIM_ISCONS(v_2318919_25);
+if (True == v_2318920_25) {
+Obj v_2318921_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318922_25 = PRIM_CDR(v_2318921_25);
+Obj v_2318923_25 = PRIM_CAR(v_2318922_25);
+Obj v_b = v_2318923_25;
+Obj v_2318924_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318925_25 = PRIM_CDR(v_2318924_25);
+Obj v_2318926_25 = PRIM_CDR(v_2318925_25);
+Obj v_2318927_25 = PRIM_EQ(Nil, v_2318926_25);
+if (True == v_2318927_25) {
 R[1] = v_a;
 R[2] = v_b;
-saveCont(co, clofun89, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
+saveCont(co, clofun96, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316880_25);
+coraCall0(co, v_2317530_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316880_25);
+coraCall0(co, v_2317530_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316880_25);
+coraCall0(co, v_2317530_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316880_25);
+coraCall0(co, v_2317530_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316880_25);
+coraCall0(co, v_2317530_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318081_25= co->res;
+Obj v_2318931_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, v_2318081_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2318931_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v_2318080_25= co->res;
+Obj v_2318930_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun89, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
+saveCont(co, clofun96, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318079_25= co->res;
+Obj v_2318929_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun89, 2, R);
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2318078_25= co->res;
+Obj v_2318928_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 R[1] = v_b;
-saveCont(co, clofun89, 3, R);
-coraCall2(co, v_2318078_25, v_a, closureRef(R[0], 5));
+saveCont(co, clofun96, 3, R);
+coraCall2(co, v_2318928_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316881_25 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318047_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318047_25) {
-Obj v_2318048_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318049_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2318048_25);
-if (True == v_2318049_25) {
-Obj v_2318050_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318051_25 = PRIM_ISCONS(v_2318050_25);
-if (True == v_2318051_25) {
-Obj v_2318052_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318053_25 = PRIM_CAR(v_2318052_25);
-Obj v_x = v_2318053_25;
-Obj v_2318054_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318055_25 = PRIM_CDR(v_2318054_25);
-Obj v_2318056_25 = PRIM_EQ(Nil, v_2318055_25);
-if (True == v_2318056_25) {
+Obj v_2317531_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318897_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318897_25) {
+Obj v_2318898_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318899_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2318898_25);
+if (True == v_2318899_25) {
+Obj v_2318900_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318901_25 = PRIM_ISCONS(v_2318900_25);
+if (True == v_2318901_25) {
+Obj v_2318902_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318903_25 = PRIM_CAR(v_2318902_25);
+Obj v_x = v_2318903_25;
+Obj v_2318904_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318905_25 = PRIM_CDR(v_2318904_25);
+Obj v_2318906_25 = PRIM_EQ(Nil, v_2318905_25);
+if (True == v_2318906_25) {
 R[1] = v_x;
-saveCont(co, clofun88, 4, R);
+saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316881_25);
+coraCall0(co, v_2317531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316881_25);
+coraCall0(co, v_2317531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316881_25);
+coraCall0(co, v_2317531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316881_25);
+coraCall0(co, v_2317531_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318060_25= co->res;
+Obj v_2318910_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2318059_25= co->res;
-saveCont(co, clofun88, 1, R);
+Obj v_2318909_25= co->res;
+saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v_2318058_25= co->res;
+Obj v_2318908_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun88, 2, R);
-coraCall2(co, v_2318058_25, v_x, closureRef(R[0], 4));
+saveCont(co, clofun95, 2, R);
+coraCall2(co, v_2318908_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2318057_25= co->res;
+Obj v_2318907_25= co->res;
 Obj v_x = R[1];
 R[1] = v_x;
-saveCont(co, clofun88, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
+saveCont(co, clofun95, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316882_25 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318034_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318034_25) {
-Obj v_2318035_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318036_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2318035_25);
-if (True == v_2318036_25) {
-Obj v_2318037_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318038_25 = PRIM_ISCONS(v_2318037_25);
-if (True == v_2318038_25) {
-Obj v_2318039_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318040_25 = PRIM_CAR(v_2318039_25);
-Obj v_exp = v_2318040_25;
-Obj v_2318041_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318042_25 = PRIM_CDR(v_2318041_25);
-Obj v_2318043_25 = PRIM_EQ(Nil, v_2318042_25);
-if (True == v_2318043_25) {
+Obj v_2317532_25 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318884_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318884_25) {
+Obj v_2318885_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318886_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318885_25);
+if (True == v_2318886_25) {
+Obj v_2318887_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318888_25 = PRIM_ISCONS(v_2318887_25);
+if (True == v_2318888_25) {
+Obj v_2318889_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318890_25 = PRIM_CAR(v_2318889_25);
+Obj v_exp = v_2318890_25;
+Obj v_2318891_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318892_25 = PRIM_CDR(v_2318891_25);
+Obj v_2318893_25 = PRIM_EQ(Nil, v_2318892_25);
+if (True == v_2318893_25) {
 R[1] = v_exp;
-saveCont(co, clofun87, 3, R);
+saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316882_25);
+coraCall0(co, v_2317532_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316882_25);
+coraCall0(co, v_2317532_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316882_25);
+coraCall0(co, v_2317532_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316882_25);
+coraCall0(co, v_2317532_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318046_25= co->res;
+Obj v_2318896_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2318045_25= co->res;
+Obj v_2318895_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun87, 1, R);
-coraCall2(co, v_2318045_25, v_exp, closureRef(R[0], 4));
+saveCont(co, clofun94, 1, R);
+coraCall2(co, v_2318895_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318044_25= co->res;
+Obj v_2318894_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun87, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
+saveCont(co, clofun94, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316883_25 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318010_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318010_25) {
-Obj v_2318011_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318012_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2318011_25);
-if (True == v_2318012_25) {
-Obj v_2318013_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318014_25 = PRIM_ISCONS(v_2318013_25);
-if (True == v_2318014_25) {
-Obj v_2318015_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318016_25 = PRIM_CAR(v_2318015_25);
-Obj v_exp = v_2318016_25;
-Obj v_2318017_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318018_25 = PRIM_CDR(v_2318017_25);
-Obj v_2318019_25 = PRIM_ISCONS(v_2318018_25);
-if (True == v_2318019_25) {
-Obj v_2318020_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318021_25 = PRIM_CDR(v_2318020_25);
-Obj v_2318022_25 = PRIM_CAR(v_2318021_25);
-Obj v_label = v_2318022_25;
-Obj v_2318023_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318024_25 = PRIM_CDR(v_2318023_25);
-Obj v_2318025_25 = PRIM_CDR(v_2318024_25);
-Obj v_fvs = v_2318025_25;
+Obj v_2317533_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2318860_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318860_25) {
+Obj v_2318861_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318862_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318861_25);
+if (True == v_2318862_25) {
+Obj v_2318863_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318864_25 = PRIM_ISCONS(v_2318863_25);
+if (True == v_2318864_25) {
+Obj v_2318865_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318866_25 = PRIM_CAR(v_2318865_25);
+Obj v_exp = v_2318866_25;
+Obj v_2318867_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318868_25 = PRIM_CDR(v_2318867_25);
+Obj v_2318869_25 = PRIM_ISCONS(v_2318868_25);
+if (True == v_2318869_25) {
+Obj v_2318870_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318871_25 = PRIM_CDR(v_2318870_25);
+Obj v_2318872_25 = PRIM_CAR(v_2318871_25);
+Obj v_label = v_2318872_25;
+Obj v_2318873_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318874_25 = PRIM_CDR(v_2318873_25);
+Obj v_2318875_25 = PRIM_CDR(v_2318874_25);
+Obj v_fvs = v_2318875_25;
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun86, 8, R);
+saveCont(co, clofun93, 8, R);
 Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316883_25);
+coraCall0(co, v_2317533_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316883_25);
+coraCall0(co, v_2317533_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316883_25);
+coraCall0(co, v_2317533_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316883_25);
+coraCall0(co, v_2317533_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318033_25= co->res;
+Obj v_2318883_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2318032_25= co->res;
+Obj v_2318882_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, v_2318032_25, v_exp, closureRef(R[0], 4));
+saveCont(co, clofun93, 1, R);
+coraCall2(co, v_2318882_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318031_25= co->res;
+Obj v_2318881_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun86, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
+saveCont(co, clofun93, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2318030_25= co->res;
+Obj v_2318880_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun86, 3, R);
+saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v_2318029_25= co->res;
+Obj v_2318879_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun86, 4, R);
+saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_label);
 return;
 }
 case 6:
 {
-Obj v_2318028_25= co->res;
+Obj v_2318878_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun86, 5, R);
+saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v_2318027_25= co->res;
+Obj v_2318877_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun86, 6, R);
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v_2318026_25= co->res;
+Obj v_2318876_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun86, 7, R);
+saveCont(co, clofun93, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317987_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317987_25) {
-Obj v_2317988_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317988_25;
-Obj v_2317989_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317989_25;
+Obj v_2318837_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318837_25) {
+Obj v_2318838_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318838_25;
+Obj v_2318839_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318839_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun85, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
+saveCont(co, clofun92, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2318001_25= co->res;
+Obj v_2318851_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v_2318000_25= co->res;
+Obj v_2318850_25= co->res;
 Obj v_nargs = R[1];
-saveCont(co, clofun85, 1, R);
+saveCont(co, clofun92, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 3:
 {
-Obj v_2317999_25= co->res;
+Obj v_2318849_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
-saveCont(co, clofun85, 2, R);
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v_2317998_25= co->res;
+Obj v_2318848_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_nargs;
-saveCont(co, clofun85, 3, R);
-coraCall2(co, v_2317998_25, v_f, closureRef(R[0], 4));
+saveCont(co, clofun92, 3, R);
+coraCall2(co, v_2318848_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v_2317997_25= co->res;
+Obj v_2318847_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun85, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
+saveCont(co, clofun92, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v_2317996_25= co->res;
+Obj v_2318846_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun85, 5, R);
+saveCont(co, clofun92, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v_2317995_25= co->res;
+Obj v_2318845_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun85, 6, R);
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v_2317994_25= co->res;
+Obj v_2318844_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun85, 7, R);
+saveCont(co, clofun92, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2317993_25= co->res;
+Obj v_2318843_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun85, 8, R);
+saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v_2317992_25= co->res;
+Obj v_2318842_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun85, 9, R);
+saveCont(co, clofun92, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 11:
 {
-Obj v_2318009_25= co->res;
+Obj v_2318859_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v_2318008_25= co->res;
+Obj v_2318858_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun85, 11, R);
+saveCont(co, clofun92, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v_2318006_25= co->res;
+Obj v_2318856_25= co->res;
 Obj v_nargs = R[1];
 Obj v_args = R[2];
-Obj v_2318007_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
-if (True == v_2318007_25) {
+Obj v_2318857_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2318857_25) {
 R[1] = v_args;
-saveCont(co, clofun85, 12, R);
+saveCont(co, clofun92, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4347,74 +4363,74 @@ return;
 }
 case 14:
 {
-Obj v_2318005_25= co->res;
+Obj v_2318855_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_nargs;
 R[2] = v_args;
-saveCont(co, clofun85, 13, R);
-coraCall2(co, v_2318005_25, v_f, closureRef(R[0], 4));
+saveCont(co, clofun92, 13, R);
+coraCall2(co, v_2318855_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v_2318004_25= co->res;
+Obj v_2318854_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun85, 14, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
+saveCont(co, clofun92, 14, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v_2318003_25= co->res;
+Obj v_2318853_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun85, 15, R);
+saveCont(co, clofun92, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v_2318002_25= co->res;
+Obj v_2318852_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun85, 16, R);
+saveCont(co, clofun92, 16, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 18:
 {
-Obj v_2317990_25= co->res;
+Obj v_2318840_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_nargs = v_2317990_25;
-Obj v_2317991_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
-if (True == v_2317991_25) {
+Obj v_nargs = v_2318840_25;
+Obj v_2318841_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2318841_25) {
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun85, 10, R);
+saveCont(co, clofun92, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun85, 17, R);
+saveCont(co, clofun92, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4422,7 +4438,7 @@ return;
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4432,13 +4448,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun83, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun90, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4446,52 +4462,52 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun83, 5, R);
+saveCont(co, clofun90, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v_2317982_25= co->res;
+Obj v_2318832_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317983_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2317983_25);
+Obj v_2318833_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318833_25);
 return;
 }
 case 2:
 {
-Obj v_2317981_25= co->res;
+Obj v_2318831_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun83, 1, R);
+saveCont(co, clofun90, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v_2317980_25= co->res;
+Obj v_2318830_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun83, 2, R);
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj v_2317979_25= co->res;
+Obj v_2318829_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun83, 3, R);
+saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v_2317978_25= co->res;
+Obj v_2318828_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun83, 4, R);
+saveCont(co, clofun90, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
@@ -4499,7 +4515,7 @@ return;
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4509,13 +4525,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun81, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun88, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4523,64 +4539,64 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun81, 5, R);
+saveCont(co, clofun88, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v_2317975_25= co->res;
+Obj v_2318825_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317976_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2317976_25);
+Obj v_2318826_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2318826_25);
 return;
 }
 case 2:
 {
-Obj v_2317974_25= co->res;
+Obj v_2318824_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun81, 1, R);
+saveCont(co, clofun88, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2317973_25= co->res;
+Obj v_2318823_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun81, 2, R);
+saveCont(co, clofun88, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2317972_25= co->res;
+Obj v_2318822_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun81, 3, R);
+saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v_2317971_25= co->res;
+Obj v_2318821_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun81, 4, R);
+saveCont(co, clofun88, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4593,7 +4609,7 @@ return;
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4603,30 +4619,30 @@ Obj v_globals = R[3];
 R[1] = v_idx;
 R[2] = v_globals;
 R[3] = v_sym;
-saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_globals);
+saveCont(co, clofun86, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2317964_25= co->res;
+Obj v_2318814_25= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v_2317964_25) {
+if (True == v_2318814_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2317965_25 = PRIM_CAR(v_globals);
-Obj v_2317966_25 = PRIM_EQ(v_sym, v_2317965_25);
-if (True == v_2317966_25) {
+Obj v_2318815_25 = PRIM_CAR(v_globals);
+Obj v_2318816_25 = PRIM_EQ(v_sym, v_2318815_25);
+if (True == v_2318816_25) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v_2317967_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v_2317968_25 = PRIM_CDR(v_globals);
+Obj v_2318817_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2318818_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2317967_25, v_sym, v_2317968_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2318817_25, v_sym, v_2318818_25);
 return;
 }
 }
@@ -4634,7 +4650,7 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4642,72 +4658,72 @@ Obj v_sym = R[1];
 Obj v_globals = R[2];
 R[1] = v_sym;
 R[2] = v_globals;
-saveCont(co, clofun78, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
+saveCont(co, clofun85, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2317960_25= co->res;
+Obj v_2318810_25= co->res;
 Obj v_sym = R[1];
 Obj v_val = R[2];
 Obj v_globals = R[3];
-if (True == v_2317960_25) {
+if (True == v_2318810_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317961_25 = makeCons(co->gc, v_sym, v_val);
-Obj v_2317962_25 = primSet(co, v_globals, v_2317961_25);
-coraReturn(co, v_2317962_25);
+Obj v_2318811_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2318812_25 = primSet(co, v_globals, v_2318811_25);
+coraReturn(co, v_2318812_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2317959_25= co->res;
+Obj v_2318809_25= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v_val = v_2317959_25;
+Obj v_val = v_2318809_25;
 R[1] = v_sym;
 R[2] = v_val;
 R[3] = v_globals;
-saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_sym, v_val);
+saveCont(co, clofun85, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_sym, v_val);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v_2317952_25 = primGenSym(co);
-Obj v_tmp = v_2317952_25;
+Obj v_2318802_25 = primGenSym(co);
+Obj v_tmp = v_2318802_25;
 R[1] = v_x;
 R[2] = v_tmp;
-saveCont(co, clofun77, 1, R);
+saveCont(co, clofun84, 1, R);
 coraCall1(co, v_k, v_tmp);
 return;
 }
 case 1:
 {
-Obj v_2317953_25= co->res;
+Obj v_2318803_25= co->res;
 Obj v_x = R[1];
 Obj v_tmp = R[2];
-Obj v_2317954_25 = makeCons(co->gc, v_2317953_25, Nil);
-Obj v_2317955_25 = makeCons(co->gc, v_x, v_2317954_25);
-Obj v_2317956_25 = makeCons(co->gc, v_tmp, v_2317955_25);
-Obj v_2317957_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317956_25);
-coraReturn(co, v_2317957_25);
+Obj v_2318804_25 = makeCons(co->gc, v_2318803_25, Nil);
+Obj v_2318805_25 = makeCons(co->gc, v_x, v_2318804_25);
+Obj v_2318806_25 = makeCons(co->gc, v_tmp, v_2318805_25);
+Obj v_2318807_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318806_25);
+coraReturn(co, v_2318807_25);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4715,172 +4731,172 @@ Obj v_v = R[1];
 Obj v_val = R[2];
 R[1] = v_val;
 R[2] = v_v;
-saveCont(co, clofun76, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(0));
+saveCont(co, clofun83, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v_2317950_25= co->res;
+Obj v_2318800_25= co->res;
 Obj v_v = R[1];
 Obj v_cur1 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), v_cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v_cur1);
 return;
 }
 case 2:
 {
-Obj v_2317945_25= co->res;
+Obj v_2318795_25= co->res;
 Obj v_val = R[1];
 Obj v_idx = R[2];
 Obj v_v = R[3];
-Obj v_cur = v_2317945_25;
-Obj v_2317946_25 = makeCons(co->gc, v_val, Nil);
-Obj v_2317947_25 = makeCons(co->gc, v_idx, v_2317946_25);
-Obj v_2317948_25 = makeCons(co->gc, v_2317947_25, v_cur);
-Obj v_cur1 = v_2317948_25;
-Obj v_2317949_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_cur = v_2318795_25;
+Obj v_2318796_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2318797_25 = makeCons(co->gc, v_idx, v_2318796_25);
+Obj v_2318798_25 = makeCons(co->gc, v_2318797_25, v_cur);
+Obj v_cur1 = v_2318798_25;
+Obj v_2318799_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
 R[1] = v_v;
 R[2] = v_cur1;
-saveCont(co, clofun76, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), v_2317949_25);
+saveCont(co, clofun83, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2318799_25);
 return;
 }
 case 3:
 {
-Obj v_2317944_25= co->res;
+Obj v_2318794_25= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v_idx = v_2317944_25;
+Obj v_idx = v_2318794_25;
 R[1] = v_val;
 R[2] = v_idx;
 R[3] = v_v;
-saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
+saveCont(co, clofun83, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316868_25 = R[1];
-Obj v_2316869_25 = R[2];
-Obj v_2316870_25 = makeNative(co->gc, 1, clofun74, 0, 2, v_2316868_25, v_2316869_25);
-Obj v_2317895_25 = PRIM_ISCONS(v_2316869_25);
-if (True == v_2317895_25) {
-Obj v_2317896_25 = PRIM_CAR(v_2316869_25);
-Obj v_2317897_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317896_25);
-if (True == v_2317897_25) {
-Obj v_2317898_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317899_25 = PRIM_ISCONS(v_2317898_25);
-if (True == v_2317899_25) {
-Obj v_2317900_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317901_25 = PRIM_CAR(v_2317900_25);
-Obj v_2317902_25 = PRIM_ISCONS(v_2317901_25);
-if (True == v_2317902_25) {
-Obj v_2317903_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317904_25 = PRIM_CAR(v_2317903_25);
-Obj v_2317905_25 = PRIM_CAR(v_2317904_25);
-Obj v_2317906_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317905_25);
-if (True == v_2317906_25) {
-Obj v_2317907_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317908_25 = PRIM_CAR(v_2317907_25);
-Obj v_2317909_25 = PRIM_CDR(v_2317908_25);
-Obj v_2317910_25 = PRIM_ISCONS(v_2317909_25);
-if (True == v_2317910_25) {
-Obj v_2317911_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317912_25 = PRIM_CAR(v_2317911_25);
-Obj v_2317913_25 = PRIM_CDR(v_2317912_25);
-Obj v_2317914_25 = PRIM_CAR(v_2317913_25);
-Obj v_params = v_2317914_25;
-Obj v_2317915_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317916_25 = PRIM_CAR(v_2317915_25);
-Obj v_2317917_25 = PRIM_CDR(v_2317916_25);
-Obj v_2317918_25 = PRIM_CDR(v_2317917_25);
-Obj v_2317919_25 = PRIM_ISCONS(v_2317918_25);
-if (True == v_2317919_25) {
-Obj v_2317920_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317921_25 = PRIM_CAR(v_2317920_25);
-Obj v_2317922_25 = PRIM_CDR(v_2317921_25);
-Obj v_2317923_25 = PRIM_CDR(v_2317922_25);
-Obj v_2317924_25 = PRIM_CAR(v_2317923_25);
-Obj v_body = v_2317924_25;
-Obj v_2317925_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317926_25 = PRIM_CAR(v_2317925_25);
-Obj v_2317927_25 = PRIM_CDR(v_2317926_25);
-Obj v_2317928_25 = PRIM_CDR(v_2317927_25);
-Obj v_2317929_25 = PRIM_CDR(v_2317928_25);
-Obj v_2317930_25 = PRIM_EQ(Nil, v_2317929_25);
-if (True == v_2317930_25) {
-Obj v_2317931_25 = PRIM_CDR(v_2316869_25);
-Obj v_2317932_25 = PRIM_CDR(v_2317931_25);
-Obj v_fvs = v_2317932_25;
-R[1] = v_2316868_25;
+Obj v_2317518_25 = R[1];
+Obj v_2317519_25 = R[2];
+Obj v_2317520_25 = makeNative(co->gc, 1, clofun81, 0, 2, v_2317518_25, v_2317519_25);
+Obj v_2318745_25 = PRIM_ISCONS(v_2317519_25);
+if (True == v_2318745_25) {
+Obj v_2318746_25 = PRIM_CAR(v_2317519_25);
+Obj v_2318747_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318746_25);
+if (True == v_2318747_25) {
+Obj v_2318748_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318749_25 = PRIM_ISCONS(v_2318748_25);
+if (True == v_2318749_25) {
+Obj v_2318750_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318751_25 = PRIM_CAR(v_2318750_25);
+Obj v_2318752_25 = PRIM_ISCONS(v_2318751_25);
+if (True == v_2318752_25) {
+Obj v_2318753_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318754_25 = PRIM_CAR(v_2318753_25);
+Obj v_2318755_25 = PRIM_CAR(v_2318754_25);
+Obj v_2318756_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318755_25);
+if (True == v_2318756_25) {
+Obj v_2318757_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318758_25 = PRIM_CAR(v_2318757_25);
+Obj v_2318759_25 = PRIM_CDR(v_2318758_25);
+Obj v_2318760_25 = PRIM_ISCONS(v_2318759_25);
+if (True == v_2318760_25) {
+Obj v_2318761_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318762_25 = PRIM_CAR(v_2318761_25);
+Obj v_2318763_25 = PRIM_CDR(v_2318762_25);
+Obj v_2318764_25 = PRIM_CAR(v_2318763_25);
+Obj v_params = v_2318764_25;
+Obj v_2318765_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318766_25 = PRIM_CAR(v_2318765_25);
+Obj v_2318767_25 = PRIM_CDR(v_2318766_25);
+Obj v_2318768_25 = PRIM_CDR(v_2318767_25);
+Obj v_2318769_25 = PRIM_ISCONS(v_2318768_25);
+if (True == v_2318769_25) {
+Obj v_2318770_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318771_25 = PRIM_CAR(v_2318770_25);
+Obj v_2318772_25 = PRIM_CDR(v_2318771_25);
+Obj v_2318773_25 = PRIM_CDR(v_2318772_25);
+Obj v_2318774_25 = PRIM_CAR(v_2318773_25);
+Obj v_body = v_2318774_25;
+Obj v_2318775_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318776_25 = PRIM_CAR(v_2318775_25);
+Obj v_2318777_25 = PRIM_CDR(v_2318776_25);
+Obj v_2318778_25 = PRIM_CDR(v_2318777_25);
+Obj v_2318779_25 = PRIM_CDR(v_2318778_25);
+Obj v_2318780_25 = PRIM_EQ(Nil, v_2318779_25);
+if (True == v_2318780_25) {
+Obj v_2318781_25 = PRIM_CDR(v_2317519_25);
+Obj v_2318782_25 = PRIM_CDR(v_2318781_25);
+Obj v_fvs = v_2318782_25;
+R[1] = v_2317518_25;
 R[2] = v_params;
 R[3] = v_fvs;
-saveCont(co, clofun75, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_2316868_25, v_body);
+saveCont(co, clofun82, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2317518_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316870_25);
+coraCall0(co, v_2317520_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317938_25= co->res;
+Obj v_2318788_25= co->res;
 Obj v_nframe = R[1];
 Obj v_fvs = R[2];
 Obj v_cur = R[3];
-Obj v_2317939_25 = makeCons(co->gc, v_nframe, v_fvs);
-Obj v_2317940_25 = makeCons(co->gc, v_2317938_25, v_2317939_25);
-Obj v_2317941_25 = makeCons(co->gc, v_cur, v_2317940_25);
-Obj v_2317942_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317941_25);
-coraReturn(co, v_2317942_25);
+Obj v_2318789_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2318790_25 = makeCons(co->gc, v_2318788_25, v_2318789_25);
+Obj v_2318791_25 = makeCons(co->gc, v_cur, v_2318790_25);
+Obj v_2318792_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318791_25);
+coraReturn(co, v_2318792_25);
 return;
 }
 case 2:
 {
-Obj v_2317937_25= co->res;
+Obj v_2318787_25= co->res;
 Obj v_params = R[1];
 Obj v_nframe = R[2];
 Obj v_fvs = R[3];
@@ -4888,86 +4904,86 @@ Obj v_cur = R[4];
 R[1] = v_nframe;
 R[2] = v_fvs;
 R[3] = v_cur;
-saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_params);
+saveCont(co, clofun82, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_params);
 return;
 }
 case 3:
 {
-Obj v_2317936_25= co->res;
-Obj v_2316868_25 = R[1];
+Obj v_2318786_25= co->res;
+Obj v_2317518_25 = R[1];
 Obj v_body2 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
 Obj v_cur = R[5];
-Obj v_nframe = v_2317936_25;
+Obj v_nframe = v_2318786_25;
 R[1] = v_params;
 R[2] = v_nframe;
 R[3] = v_fvs;
 R[4] = v_cur;
-saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2316868_25, v_body2);
+saveCont(co, clofun82, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2317518_25, v_body2);
 return;
 }
 case 4:
 {
-Obj v_2317935_25= co->res;
-Obj v_2316868_25 = R[1];
+Obj v_2318785_25= co->res;
+Obj v_2317518_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
 Obj v_cur = R[4];
-Obj v_body2 = v_2317935_25;
-R[1] = v_2316868_25;
+Obj v_body2 = v_2318785_25;
+R[1] = v_2317518_25;
 R[2] = v_body2;
 R[3] = v_params;
 R[4] = v_fvs;
 R[5] = v_cur;
-saveCont(co, clofun75, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), v_body2);
+saveCont(co, clofun82, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_body2);
 return;
 }
 case 5:
 {
-Obj v_2317934_25= co->res;
+Obj v_2318784_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2316868_25 = R[2];
+Obj v_2317518_25 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
-Obj v_cur = v_2317934_25;
-R[1] = v_2316868_25;
+Obj v_cur = v_2318784_25;
+R[1] = v_2317518_25;
 R[2] = v_params;
 R[3] = v_fvs;
 R[4] = v_cur;
-saveCont(co, clofun75, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), v_params, v_body1);
+saveCont(co, clofun82, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v_params, v_body1);
 return;
 }
 case 6:
 {
-Obj v_2317933_25= co->res;
-Obj v_2316868_25 = R[1];
+Obj v_2318783_25= co->res;
+Obj v_2317518_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
-Obj v_body1 = v_2317933_25;
+Obj v_body1 = v_2318783_25;
 R[1] = v_body1;
-R[2] = v_2316868_25;
+R[2] = v_2317518_25;
 R[3] = v_params;
 R[4] = v_fvs;
-saveCont(co, clofun75, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2316868_25, MAKE_NUMBER(0));
+saveCont(co, clofun82, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2317518_25, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317893_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317893_25) {
-saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), closureRef(R[0], 0));
+Obj v_2318743_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318743_25) {
+saveCont(co, clofun81, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -4976,74 +4992,74 @@ return;
 }
 case 1:
 {
-Obj v_2317894_25= co->res;
+Obj v_2318744_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317894_25, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318744_25, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun73, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
+saveCont(co, clofun80, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_lam);
 return;
 }
 case 1:
 {
-Obj v_2317891_25= co->res;
-Obj v_2317890_25 = R[1];
+Obj v_2318741_25= co->res;
+Obj v_2318740_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun72, 2, 0), v_2317890_25, v_2317891_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun79, 2, 0), v_2318740_25, v_2318741_25);
 return;
 }
 case 2:
 {
-Obj v_2317885_25= co->res;
+Obj v_2318735_25= co->res;
 Obj v_lam = R[1];
-Obj v_nargs = v_2317885_25;
-Obj v_2317890_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
-R[1] = v_2317890_25;
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
+Obj v_nargs = v_2318735_25;
+Obj v_2318740_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2318740_25;
+saveCont(co, clofun80, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj v_2317884_25= co->res;
+Obj v_2318734_25= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317884_25);
+saveCont(co, clofun80, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2318734_25);
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_acc = R[1];
 Obj v_x = R[2];
 R[1] = v_acc;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_x);
+saveCont(co, clofun79, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
 return;
 }
 case 1:
 {
-Obj v_2317887_25= co->res;
+Obj v_2318737_25= co->res;
 Obj v_acc = R[1];
-Obj v_2317888_25 = PRIM_ADD(v_2317887_25, MAKE_NUMBER(1));
-Obj v_len = v_2317888_25;
-Obj v_2317889_25 = PRIM_GT(v_len, v_acc);
-if (True == v_2317889_25) {
+Obj v_2318738_25 = PRIM_ADD(v_2318737_25, MAKE_NUMBER(1));
+Obj v_len = v_2318738_25;
+Obj v_2318739_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2318739_25) {
 coraReturn(co, v_len);
 return;
 } else {
@@ -5053,79 +5069,79 @@ return;
 }
 case 2:
 {
-Obj v_2317886_25= co->res;
+Obj v_2318736_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2317886_25);
+saveCont(co, clofun79, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2318736_25);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_params = R[1];
 Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun77, 2, 1, v_params));
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body1 = R[1];
 Obj v_conts = R[2];
 R[1] = v_body1;
-saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_conts);
+saveCont(co, clofun77, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_conts);
 return;
 }
 case 1:
 {
-Obj v_2317879_25= co->res;
+Obj v_2318729_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2317880_25 = makeCons(co->gc, v_body1, v_2317879_25);
-Obj v_2317881_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317880_25);
-Obj v_2317882_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317881_25);
-coraReturn(co, v_2317882_25);
+Obj v_2318730_25 = makeCons(co->gc, v_body1, v_2318729_25);
+Obj v_2318731_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318730_25);
+Obj v_2318732_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318731_25);
+coraReturn(co, v_2318732_25);
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316862_25 = R[1];
-Obj v_2316863_25 = R[2];
-Obj v_2316864_25 = R[3];
-Obj v_2316865_25 = R[4];
-Obj v_2317873_25 = PRIM_EQ(Nil, v_2316862_25);
-if (True == v_2317873_25) {
+Obj v_2317512_25 = R[1];
+Obj v_2317513_25 = R[2];
+Obj v_2317514_25 = R[3];
+Obj v_2317515_25 = R[4];
+Obj v_2318723_25 = PRIM_EQ(Nil, v_2317512_25);
+if (True == v_2318723_25) {
 co->ctx.sp = R;
-coraCall2(co, v_2316865_25, v_2316864_25, v_2316863_25);
+coraCall2(co, v_2317515_25, v_2317514_25, v_2317513_25);
 return;
 } else {
-Obj v_2317874_25 = PRIM_ISCONS(v_2316862_25);
-if (True == v_2317874_25) {
-Obj v_2317875_25 = PRIM_CAR(v_2316862_25);
-Obj v_f = v_2317875_25;
-Obj v_2317876_25 = PRIM_CDR(v_2316862_25);
-Obj v_args = v_2317876_25;
+Obj v_2318724_25 = PRIM_ISCONS(v_2317512_25);
+if (True == v_2318724_25) {
+Obj v_2318725_25 = PRIM_CAR(v_2317512_25);
+Obj v_f = v_2318725_25;
+Obj v_2318726_25 = PRIM_CDR(v_2317512_25);
+Obj v_args = v_2318726_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_f, v_2316863_25, makeNative(co->gc, 3, clofun68, 2, 3, v_args, v_2316864_25, v_2316865_25));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2317513_25, makeNative(co->gc, 3, clofun75, 2, 3, v_args, v_2317514_25, v_2317515_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5133,131 +5149,131 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_f1 = R[1];
 Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun74, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v_2317877_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v_2318727_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2317877_25, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v_2318727_25, v_conts2);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316856_25 = R[1];
-Obj v_2316857_25 = R[2];
-Obj v_2316858_25 = R[3];
-Obj v_2316932_25 = makeNative(co->gc, 2, clofun65, 1, 3, v_2316856_25, v_2316857_25, v_2316858_25);
-Obj v_2317870_25 = primIsSymbol(v_2316856_25);
-if (True == v_2317870_25) {
+Obj v_2317506_25 = R[1];
+Obj v_2317507_25 = R[2];
+Obj v_2317508_25 = R[3];
+Obj v_2317658_25 = makeNative(co->gc, 2, clofun72, 1, 3, v_2317506_25, v_2317507_25, v_2317508_25);
+Obj v_2318720_25 = primIsSymbol(v_2317506_25);
+if (True == v_2318720_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316932_25, True);
+coraCall1(co, v_2317658_25, True);
 return;
 } else {
-R[1] = v_2316932_25;
-saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316856_25);
+R[1] = v_2317658_25;
+saveCont(co, clofun73, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317506_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317871_25= co->res;
-Obj v_2316932_25 = R[1];
-if (True == v_2317871_25) {
+Obj v_2318721_25= co->res;
+Obj v_2317658_25 = R[1];
+if (True == v_2318721_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316932_25, True);
+coraCall1(co, v_2317658_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316932_25, False);
+coraCall1(co, v_2317658_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316933_25 = R[1];
-if (True == v_2316933_25) {
+Obj v_2317659_25 = R[1];
+if (True == v_2317659_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2316860_25 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317846_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317846_25) {
-Obj v_2317847_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317848_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317847_25);
-if (True == v_2317848_25) {
-Obj v_2317849_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317850_25 = PRIM_ISCONS(v_2317849_25);
-if (True == v_2317850_25) {
-Obj v_2317851_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317852_25 = PRIM_CAR(v_2317851_25);
-Obj v_exp = v_2317852_25;
-Obj v_2317853_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317854_25 = PRIM_CDR(v_2317853_25);
-Obj v_2317855_25 = PRIM_ISCONS(v_2317854_25);
-if (True == v_2317855_25) {
-Obj v_2317856_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317857_25 = PRIM_CDR(v_2317856_25);
-Obj v_2317858_25 = PRIM_CAR(v_2317857_25);
-Obj v_cont = v_2317858_25;
-Obj v_2317859_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317860_25 = PRIM_CDR(v_2317859_25);
-Obj v_2317861_25 = PRIM_CDR(v_2317860_25);
-Obj v_2317862_25 = PRIM_EQ(Nil, v_2317861_25);
-if (True == v_2317862_25) {
+Obj v_2317510_25 = makeNative(co->gc, 1, clofun70, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2318696_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318696_25) {
+Obj v_2318697_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318698_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318697_25);
+if (True == v_2318698_25) {
+Obj v_2318699_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318700_25 = PRIM_ISCONS(v_2318699_25);
+if (True == v_2318700_25) {
+Obj v_2318701_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318702_25 = PRIM_CAR(v_2318701_25);
+Obj v_exp = v_2318702_25;
+Obj v_2318703_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318704_25 = PRIM_CDR(v_2318703_25);
+Obj v_2318705_25 = PRIM_ISCONS(v_2318704_25);
+if (True == v_2318705_25) {
+Obj v_2318706_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318707_25 = PRIM_CDR(v_2318706_25);
+Obj v_2318708_25 = PRIM_CAR(v_2318707_25);
+Obj v_cont = v_2318708_25;
+Obj v_2318709_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318710_25 = PRIM_CDR(v_2318709_25);
+Obj v_2318711_25 = PRIM_CDR(v_2318710_25);
+Obj v_2318712_25 = PRIM_EQ(Nil, v_2318711_25);
+if (True == v_2318712_25) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), v_exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun71, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316860_25);
+coraCall0(co, v_2317510_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316860_25);
+coraCall0(co, v_2317510_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316860_25);
+coraCall0(co, v_2317510_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316860_25);
+coraCall0(co, v_2317510_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316860_25);
+coraCall0(co, v_2317510_25);
 return;
 }
 }
@@ -5265,7 +5281,7 @@ return;
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5273,152 +5289,152 @@ Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
 R[1] = v_cont1;
 R[2] = v_conts1;
-saveCont(co, clofun64, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_cont1);
+saveCont(co, clofun71, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
 return;
 }
 case 1:
 {
-Obj v_2317864_25= co->res;
+Obj v_2318714_25= co->res;
 Obj v_fvs = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v_2317865_25 = PRIM_ADD(v_2317864_25, MAKE_NUMBER(1));
-Obj v_2317866_25 = makeCons(co->gc, v_2317865_25, v_fvs);
-Obj v_2317867_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317866_25);
-Obj v_2317868_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317867_25);
-Obj v_2317869_25 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v_2318715_25 = PRIM_ADD(v_2318714_25, MAKE_NUMBER(1));
+Obj v_2318716_25 = makeCons(co->gc, v_2318715_25, v_fvs);
+Obj v_2318717_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318716_25);
+Obj v_2318718_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318717_25);
+Obj v_2318719_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2317868_25, v_2317869_25);
+coraCall2(co, closureRef(R[0], 0), v_2318718_25, v_2318719_25);
 return;
 }
 case 2:
 {
-Obj v_2317863_25= co->res;
+Obj v_2318713_25= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v_fvs = v_2317863_25;
+Obj v_fvs = v_2318713_25;
 R[1] = v_fvs;
 R[2] = v_cont1;
 R[3] = v_conts1;
-saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_conts1);
+saveCont(co, clofun71, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_conts1);
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317842_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317842_25) {
-Obj v_2317843_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317843_25;
-Obj v_2317844_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317844_25;
-Obj v_2317845_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318692_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318692_25) {
+Obj v_2318693_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318693_25;
+Obj v_2318694_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318694_25;
+Obj v_2318695_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), v_2317845_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2318695_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316848_25 = R[1];
-Obj v_2316849_25 = R[2];
-R[1] = v_2316849_25;
-R[2] = v_2316848_25;
-saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316849_25);
+Obj v_2317498_25 = R[1];
+Obj v_2317499_25 = R[2];
+R[1] = v_2317499_25;
+R[2] = v_2317498_25;
+saveCont(co, clofun69, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317499_25);
 return;
 }
 case 1:
 {
-Obj v_2317837_25= co->res;
+Obj v_2318687_25= co->res;
 Obj v_args = R[1];
-Obj v_2317838_25 = makeCons(co->gc, v_2317837_25, Nil);
-Obj v_2317839_25 = makeCons(co->gc, v_args, v_2317838_25);
-Obj v_2317840_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317839_25);
-coraReturn(co, v_2317840_25);
+Obj v_2318688_25 = makeCons(co->gc, v_2318687_25, Nil);
+Obj v_2318689_25 = makeCons(co->gc, v_args, v_2318688_25);
+Obj v_2318690_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318689_25);
+coraReturn(co, v_2318690_25);
 return;
 }
 case 2:
 {
-Obj v_2317765_25= co->res;
-Obj v_2316849_25 = R[1];
-Obj v_2316848_25 = R[2];
-if (True == v_2317765_25) {
-coraReturn(co, v_2316849_25);
-return;
-} else {
-Obj v_2317766_25 = primIsSymbol(v_2316849_25);
-if (True == v_2317766_25) {
-coraReturn(co, v_2316849_25);
-return;
-} else {
-Obj v_2316852_25 = makeNative(co->gc, 4, clofun61, 0, 2, v_2316849_25, v_2316848_25);
-Obj v_2317820_25 = PRIM_ISCONS(v_2316849_25);
-if (True == v_2317820_25) {
-Obj v_2317821_25 = PRIM_CAR(v_2316849_25);
-Obj v_2317822_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317821_25);
-if (True == v_2317822_25) {
-Obj v_2317823_25 = PRIM_CDR(v_2316849_25);
-Obj v_2317824_25 = PRIM_ISCONS(v_2317823_25);
-if (True == v_2317824_25) {
-Obj v_2317825_25 = PRIM_CDR(v_2316849_25);
-Obj v_2317826_25 = PRIM_CAR(v_2317825_25);
-Obj v_args = v_2317826_25;
-Obj v_2317827_25 = PRIM_CDR(v_2316849_25);
-Obj v_2317828_25 = PRIM_CDR(v_2317827_25);
-Obj v_2317829_25 = PRIM_ISCONS(v_2317828_25);
-if (True == v_2317829_25) {
-Obj v_2317830_25 = PRIM_CDR(v_2316849_25);
-Obj v_2317831_25 = PRIM_CDR(v_2317830_25);
-Obj v_2317832_25 = PRIM_CAR(v_2317831_25);
-Obj v_body = v_2317832_25;
-Obj v_2317833_25 = PRIM_CDR(v_2316849_25);
-Obj v_2317834_25 = PRIM_CDR(v_2317833_25);
-Obj v_2317835_25 = PRIM_CDR(v_2317834_25);
-Obj v_2317836_25 = PRIM_EQ(Nil, v_2317835_25);
-if (True == v_2317836_25) {
+Obj v_2318615_25= co->res;
+Obj v_2317499_25 = R[1];
+Obj v_2317498_25 = R[2];
+if (True == v_2318615_25) {
+coraReturn(co, v_2317499_25);
+return;
+} else {
+Obj v_2318616_25 = primIsSymbol(v_2317499_25);
+if (True == v_2318616_25) {
+coraReturn(co, v_2317499_25);
+return;
+} else {
+Obj v_2317502_25 = makeNative(co->gc, 4, clofun68, 0, 2, v_2317499_25, v_2317498_25);
+Obj v_2318670_25 = PRIM_ISCONS(v_2317499_25);
+if (True == v_2318670_25) {
+Obj v_2318671_25 = PRIM_CAR(v_2317499_25);
+Obj v_2318672_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318671_25);
+if (True == v_2318672_25) {
+Obj v_2318673_25 = PRIM_CDR(v_2317499_25);
+Obj v_2318674_25 = PRIM_ISCONS(v_2318673_25);
+if (True == v_2318674_25) {
+Obj v_2318675_25 = PRIM_CDR(v_2317499_25);
+Obj v_2318676_25 = PRIM_CAR(v_2318675_25);
+Obj v_args = v_2318676_25;
+Obj v_2318677_25 = PRIM_CDR(v_2317499_25);
+Obj v_2318678_25 = PRIM_CDR(v_2318677_25);
+Obj v_2318679_25 = PRIM_ISCONS(v_2318678_25);
+if (True == v_2318679_25) {
+Obj v_2318680_25 = PRIM_CDR(v_2317499_25);
+Obj v_2318681_25 = PRIM_CDR(v_2318680_25);
+Obj v_2318682_25 = PRIM_CAR(v_2318681_25);
+Obj v_body = v_2318682_25;
+Obj v_2318683_25 = PRIM_CDR(v_2317499_25);
+Obj v_2318684_25 = PRIM_CDR(v_2318683_25);
+Obj v_2318685_25 = PRIM_CDR(v_2318684_25);
+Obj v_2318686_25 = PRIM_EQ(Nil, v_2318685_25);
+if (True == v_2318686_25) {
 R[1] = v_args;
-saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_2316848_25, v_body);
+saveCont(co, clofun69, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2317498_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316852_25);
+coraCall0(co, v_2317502_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316852_25);
+coraCall0(co, v_2317502_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316852_25);
+coraCall0(co, v_2317502_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316852_25);
+coraCall0(co, v_2317502_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316852_25);
+coraCall0(co, v_2317502_25);
 return;
 }
 }
@@ -5427,368 +5443,368 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316853_25 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317795_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317795_25) {
-Obj v_2317796_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317797_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317796_25);
-if (True == v_2317797_25) {
-Obj v_2317798_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317799_25 = PRIM_ISCONS(v_2317798_25);
-if (True == v_2317799_25) {
-Obj v_2317800_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317801_25 = PRIM_CAR(v_2317800_25);
-Obj v_val = v_2317801_25;
-Obj v_2317802_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317803_25 = PRIM_CDR(v_2317802_25);
-Obj v_2317804_25 = PRIM_ISCONS(v_2317803_25);
-if (True == v_2317804_25) {
-Obj v_2317805_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317806_25 = PRIM_CDR(v_2317805_25);
-Obj v_2317807_25 = PRIM_CAR(v_2317806_25);
-Obj v_body = v_2317807_25;
-Obj v_2317808_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317809_25 = PRIM_CDR(v_2317808_25);
-Obj v_2317810_25 = PRIM_CDR(v_2317809_25);
-Obj v_2317811_25 = PRIM_EQ(Nil, v_2317810_25);
-if (True == v_2317811_25) {
+Obj v_2317503_25 = makeNative(co->gc, 3, clofun67, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318645_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318645_25) {
+Obj v_2318646_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318647_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318646_25);
+if (True == v_2318647_25) {
+Obj v_2318648_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318649_25 = PRIM_ISCONS(v_2318648_25);
+if (True == v_2318649_25) {
+Obj v_2318650_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318651_25 = PRIM_CAR(v_2318650_25);
+Obj v_val = v_2318651_25;
+Obj v_2318652_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318653_25 = PRIM_CDR(v_2318652_25);
+Obj v_2318654_25 = PRIM_ISCONS(v_2318653_25);
+if (True == v_2318654_25) {
+Obj v_2318655_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318656_25 = PRIM_CDR(v_2318655_25);
+Obj v_2318657_25 = PRIM_CAR(v_2318656_25);
+Obj v_body = v_2318657_25;
+Obj v_2318658_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318659_25 = PRIM_CDR(v_2318658_25);
+Obj v_2318660_25 = PRIM_CDR(v_2318659_25);
+Obj v_2318661_25 = PRIM_EQ(Nil, v_2318660_25);
+if (True == v_2318661_25) {
 R[1] = v_body;
 R[2] = v_val;
-saveCont(co, clofun61, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
+saveCont(co, clofun68, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316853_25);
+coraCall0(co, v_2317503_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316853_25);
+coraCall0(co, v_2317503_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316853_25);
+coraCall0(co, v_2317503_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316853_25);
+coraCall0(co, v_2317503_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316853_25);
+coraCall0(co, v_2317503_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317816_25= co->res;
+Obj v_2318666_25= co->res;
 Obj v_fvs2 = R[1];
 Obj v_val = R[2];
-Obj v_2317817_25 = makeCons(co->gc, v_2317816_25, v_fvs2);
-Obj v_2317818_25 = makeCons(co->gc, v_val, v_2317817_25);
-Obj v_2317819_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2317818_25);
-coraReturn(co, v_2317819_25);
+Obj v_2318667_25 = makeCons(co->gc, v_2318666_25, v_fvs2);
+Obj v_2318668_25 = makeCons(co->gc, v_val, v_2318667_25);
+Obj v_2318669_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318668_25);
+coraReturn(co, v_2318669_25);
 return;
 }
 case 2:
 {
-Obj v_2317815_25= co->res;
+Obj v_2318665_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
-Obj v_fvs2 = v_2317815_25;
+Obj v_fvs2 = v_2318665_25;
 R[1] = v_fvs2;
 R[2] = v_val;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), v_fvs1, v_body);
+saveCont(co, clofun68, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_fvs1, v_body);
 return;
 }
 case 3:
 {
-Obj v_2317814_25= co->res;
+Obj v_2318664_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
-saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317814_25, v_fvs1);
+saveCont(co, clofun68, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318664_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2317813_25= co->res;
+Obj v_2318663_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
-Obj v_fvs1 = v_2317813_25;
+Obj v_fvs1 = v_2318663_25;
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
-saveCont(co, clofun61, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
+saveCont(co, clofun68, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v_2317812_25= co->res;
+Obj v_2318662_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
 R[1] = v_body;
 R[2] = v_val;
-saveCont(co, clofun61, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317812_25, v_val);
+saveCont(co, clofun68, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318662_25, v_val);
 return;
 }
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316854_25 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317772_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317772_25) {
-Obj v_2317773_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317774_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317773_25);
-if (True == v_2317774_25) {
-Obj v_2317775_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317776_25 = PRIM_ISCONS(v_2317775_25);
-if (True == v_2317776_25) {
-Obj v_2317777_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317778_25 = PRIM_CAR(v_2317777_25);
-Obj v_exp = v_2317778_25;
-Obj v_2317779_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317780_25 = PRIM_CDR(v_2317779_25);
-Obj v_2317781_25 = PRIM_ISCONS(v_2317780_25);
-if (True == v_2317781_25) {
-Obj v_2317782_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317783_25 = PRIM_CDR(v_2317782_25);
-Obj v_2317784_25 = PRIM_CAR(v_2317783_25);
-Obj v_cont = v_2317784_25;
-Obj v_2317785_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317786_25 = PRIM_CDR(v_2317785_25);
-Obj v_2317787_25 = PRIM_CDR(v_2317786_25);
-Obj v_2317788_25 = PRIM_EQ(Nil, v_2317787_25);
-if (True == v_2317788_25) {
+Obj v_2317504_25 = makeNative(co->gc, 3, clofun66, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318622_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318622_25) {
+Obj v_2318623_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318624_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318623_25);
+if (True == v_2318624_25) {
+Obj v_2318625_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318626_25 = PRIM_ISCONS(v_2318625_25);
+if (True == v_2318626_25) {
+Obj v_2318627_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318628_25 = PRIM_CAR(v_2318627_25);
+Obj v_exp = v_2318628_25;
+Obj v_2318629_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318630_25 = PRIM_CDR(v_2318629_25);
+Obj v_2318631_25 = PRIM_ISCONS(v_2318630_25);
+if (True == v_2318631_25) {
+Obj v_2318632_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318633_25 = PRIM_CDR(v_2318632_25);
+Obj v_2318634_25 = PRIM_CAR(v_2318633_25);
+Obj v_cont = v_2318634_25;
+Obj v_2318635_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318636_25 = PRIM_CDR(v_2318635_25);
+Obj v_2318637_25 = PRIM_CDR(v_2318636_25);
+Obj v_2318638_25 = PRIM_EQ(Nil, v_2318637_25);
+if (True == v_2318638_25) {
 R[1] = v_exp;
 R[2] = v_cont;
-saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
+saveCont(co, clofun67, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316854_25);
+coraCall0(co, v_2317504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316854_25);
+coraCall0(co, v_2317504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316854_25);
+coraCall0(co, v_2317504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316854_25);
+coraCall0(co, v_2317504_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316854_25);
+coraCall0(co, v_2317504_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317791_25= co->res;
-Obj v_2317790_25 = R[1];
-Obj v_2317792_25 = makeCons(co->gc, v_2317791_25, Nil);
-Obj v_2317793_25 = makeCons(co->gc, v_2317790_25, v_2317792_25);
-Obj v_2317794_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317793_25);
-coraReturn(co, v_2317794_25);
+Obj v_2318641_25= co->res;
+Obj v_2318640_25 = R[1];
+Obj v_2318642_25 = makeCons(co->gc, v_2318641_25, Nil);
+Obj v_2318643_25 = makeCons(co->gc, v_2318640_25, v_2318642_25);
+Obj v_2318644_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318643_25);
+coraReturn(co, v_2318644_25);
 return;
 }
 case 2:
 {
-Obj v_2317790_25= co->res;
+Obj v_2318640_25= co->res;
 Obj v_cont = R[1];
-R[1] = v_2317790_25;
-saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1), v_cont);
+R[1] = v_2318640_25;
+saveCont(co, clofun67, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj v_2317789_25= co->res;
+Obj v_2318639_25= co->res;
 Obj v_exp = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317789_25, v_exp);
+saveCont(co, clofun67, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318639_25, v_exp);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317767_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317767_25) {
-Obj v_2317768_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317768_25;
-Obj v_2317769_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317769_25;
+Obj v_2318617_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318617_25) {
+Obj v_2318618_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318618_25;
+Obj v_2318619_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318619_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
+saveCont(co, clofun66, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317770_25= co->res;
+Obj v_2318620_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2317771_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318621_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317770_25, v_2317771_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318620_25, v_2318621_25);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316843_25 = R[1];
-Obj v_2316844_25 = R[2];
-Obj v_2316845_25 = R[3];
-Obj v_2317742_25 = PRIM_EQ(Nil, v_2316843_25);
-if (True == v_2317742_25) {
-R[1] = v_2316845_25;
-saveCont(co, clofun58, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_2316844_25);
+Obj v_2317493_25 = R[1];
+Obj v_2317494_25 = R[2];
+Obj v_2317495_25 = R[3];
+Obj v_2318592_25 = PRIM_EQ(Nil, v_2317493_25);
+if (True == v_2318592_25) {
+R[1] = v_2317495_25;
+saveCont(co, clofun65, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317494_25);
 return;
 } else {
-Obj v_2317760_25 = PRIM_ISCONS(v_2316843_25);
-if (True == v_2317760_25) {
-Obj v_2317761_25 = PRIM_CAR(v_2316843_25);
-Obj v_hd = v_2317761_25;
-Obj v_2317762_25 = PRIM_CDR(v_2316843_25);
-Obj v_tl = v_2317762_25;
+Obj v_2318610_25 = PRIM_ISCONS(v_2317493_25);
+if (True == v_2318610_25) {
+Obj v_2318611_25 = PRIM_CAR(v_2317493_25);
+Obj v_hd = v_2318611_25;
+Obj v_2318612_25 = PRIM_CDR(v_2317493_25);
+Obj v_tl = v_2318612_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_hd, makeNative(co->gc, 2, clofun57, 1, 3, v_tl, v_2316844_25, v_2316845_25));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun64, 1, 3, v_tl, v_2317494_25, v_2317495_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317758_25= co->res;
-Obj v_2316930_25 = R[1];
-Obj v_2317759_25 = PRIM_EQ(v_2317758_25, getBinding(co, packageID, 96).name);
-if (True == v_2317759_25) {
+Obj v_2318608_25= co->res;
+Obj v_2317649_25 = R[1];
+Obj v_2318609_25 = PRIM_EQ(v_2318608_25, getBinding(co, packageID, 91).name);
+if (True == v_2318609_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316930_25, True);
+coraCall1(co, v_2317649_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316930_25, False);
+coraCall1(co, v_2317649_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317757_25= co->res;
+Obj v_2318607_25= co->res;
 Obj v_exp = R[1];
-Obj v_2316930_25 = R[2];
-if (True == v_2317757_25) {
-R[1] = v_2316930_25;
-saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_exp);
+Obj v_2317649_25 = R[2];
+if (True == v_2318607_25) {
+R[1] = v_2317649_25;
+saveCont(co, clofun65, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316930_25, False);
+coraCall1(co, v_2317649_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2317743_25= co->res;
-Obj v_2316845_25 = R[1];
-Obj v_exp = v_2317743_25;
-Obj v_2316930_25 = makeNative(co->gc, 2, clofun56, 1, 2, v_exp, v_2316845_25);
-Obj v_2317756_25 = PRIM_CAR(v_exp);
+Obj v_2318593_25= co->res;
+Obj v_2317495_25 = R[1];
+Obj v_exp = v_2318593_25;
+Obj v_2317649_25 = makeNative(co->gc, 2, clofun63, 1, 2, v_exp, v_2317495_25);
+Obj v_2318606_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2316930_25;
-saveCont(co, clofun58, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317756_25);
+R[2] = v_2317649_25;
+saveCont(co, clofun65, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2318606_25);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v_2317763_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v_2318613_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), v_2317763_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2318613_25, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316931_25 = R[1];
-if (True == v_2316931_25) {
+Obj v_2317650_25 = R[1];
+if (True == v_2317650_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2317744_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
-if (True == v_2317744_25) {
-Obj v_2317745_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2317746_25 = makeCons(co->gc, getBinding(co, packageID, 75).name, v_2317745_25);
-coraReturn(co, v_2317746_25);
+Obj v_2318594_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
+if (True == v_2318594_25) {
+Obj v_2318595_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2318596_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318595_25);
+coraReturn(co, v_2318596_25);
 return;
 } else {
-Obj v_2317747_25 = primGenSym(co);
-Obj v_val = v_2317747_25;
-Obj v_2317748_25 = makeCons(co->gc, v_val, Nil);
-R[1] = v_2317748_25;
-saveCont(co, clofun56, 1, R);
+Obj v_2318597_25 = primGenSym(co);
+Obj v_val = v_2318597_25;
+Obj v_2318598_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2318598_25;
+saveCont(co, clofun63, 1, R);
 coraCall1(co, closureRef(R[0], 1), v_val);
 return;
 }
@@ -5796,145 +5812,145 @@ return;
 }
 case 1:
 {
-Obj v_2317749_25= co->res;
-Obj v_2317748_25 = R[1];
-Obj v_2317750_25 = makeCons(co->gc, v_2317749_25, Nil);
-Obj v_2317751_25 = makeCons(co->gc, v_2317748_25, v_2317750_25);
-Obj v_2317752_25 = makeCons(co->gc, getBinding(co, packageID, 76).name, v_2317751_25);
-Obj v_2317753_25 = makeCons(co->gc, v_2317752_25, Nil);
-Obj v_2317754_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317753_25);
-Obj v_2317755_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2317754_25);
-coraReturn(co, v_2317755_25);
+Obj v_2318599_25= co->res;
+Obj v_2318598_25 = R[1];
+Obj v_2318600_25 = makeCons(co->gc, v_2318599_25, Nil);
+Obj v_2318601_25 = makeCons(co->gc, v_2318598_25, v_2318600_25);
+Obj v_2318602_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318601_25);
+Obj v_2318603_25 = makeCons(co->gc, v_2318602_25, Nil);
+Obj v_2318604_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318603_25);
+Obj v_2318605_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318604_25);
+coraReturn(co, v_2318605_25);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316834_25 = R[1];
-Obj v_2316835_25 = R[2];
-Obj v_2316928_25 = makeNative(co->gc, 2, clofun54, 1, 2, v_2316834_25, v_2316835_25);
-Obj v_2317739_25 = primIsSymbol(v_2316834_25);
-if (True == v_2317739_25) {
+Obj v_2317484_25 = R[1];
+Obj v_2317485_25 = R[2];
+Obj v_2317638_25 = makeNative(co->gc, 2, clofun61, 1, 2, v_2317484_25, v_2317485_25);
+Obj v_2318589_25 = primIsSymbol(v_2317484_25);
+if (True == v_2318589_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316928_25, True);
+coraCall1(co, v_2317638_25, True);
 return;
 } else {
-R[1] = v_2316928_25;
-saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316834_25);
+R[1] = v_2317638_25;
+saveCont(co, clofun62, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317484_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317740_25= co->res;
-Obj v_2316928_25 = R[1];
-if (True == v_2317740_25) {
+Obj v_2318590_25= co->res;
+Obj v_2317638_25 = R[1];
+if (True == v_2318590_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316928_25, True);
+coraCall1(co, v_2317638_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316928_25, False);
+coraCall1(co, v_2317638_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316929_25 = R[1];
-if (True == v_2316929_25) {
+Obj v_2317639_25 = R[1];
+if (True == v_2317639_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), closureRef(R[0], 0));
+saveCont(co, clofun61, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v_2317605_25= co->res;
-if (True == v_2317605_25) {
+Obj v_2318455_25= co->res;
+if (True == v_2318455_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v_2316838_25 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317707_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317707_25) {
-Obj v_2317708_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317709_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317708_25);
-if (True == v_2317709_25) {
-Obj v_2317710_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317711_25 = PRIM_ISCONS(v_2317710_25);
-if (True == v_2317711_25) {
-Obj v_2317712_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317713_25 = PRIM_CAR(v_2317712_25);
-Obj v_a = v_2317713_25;
-Obj v_2317714_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317715_25 = PRIM_CDR(v_2317714_25);
-Obj v_2317716_25 = PRIM_ISCONS(v_2317715_25);
-if (True == v_2317716_25) {
-Obj v_2317717_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317718_25 = PRIM_CDR(v_2317717_25);
-Obj v_2317719_25 = PRIM_CAR(v_2317718_25);
-Obj v_b = v_2317719_25;
-Obj v_2317720_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317721_25 = PRIM_CDR(v_2317720_25);
-Obj v_2317722_25 = PRIM_CDR(v_2317721_25);
-Obj v_2317723_25 = PRIM_ISCONS(v_2317722_25);
-if (True == v_2317723_25) {
-Obj v_2317724_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317725_25 = PRIM_CDR(v_2317724_25);
-Obj v_2317726_25 = PRIM_CDR(v_2317725_25);
-Obj v_2317727_25 = PRIM_CAR(v_2317726_25);
-Obj v_c = v_2317727_25;
-Obj v_2317728_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317729_25 = PRIM_CDR(v_2317728_25);
-Obj v_2317730_25 = PRIM_CDR(v_2317729_25);
-Obj v_2317731_25 = PRIM_CDR(v_2317730_25);
-Obj v_2317732_25 = PRIM_EQ(Nil, v_2317731_25);
-if (True == v_2317732_25) {
+Obj v_2317488_25 = makeNative(co->gc, 1, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318557_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318557_25) {
+Obj v_2318558_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318559_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318558_25);
+if (True == v_2318559_25) {
+Obj v_2318560_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318561_25 = PRIM_ISCONS(v_2318560_25);
+if (True == v_2318561_25) {
+Obj v_2318562_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318563_25 = PRIM_CAR(v_2318562_25);
+Obj v_a = v_2318563_25;
+Obj v_2318564_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318565_25 = PRIM_CDR(v_2318564_25);
+Obj v_2318566_25 = PRIM_ISCONS(v_2318565_25);
+if (True == v_2318566_25) {
+Obj v_2318567_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318568_25 = PRIM_CDR(v_2318567_25);
+Obj v_2318569_25 = PRIM_CAR(v_2318568_25);
+Obj v_b = v_2318569_25;
+Obj v_2318570_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318571_25 = PRIM_CDR(v_2318570_25);
+Obj v_2318572_25 = PRIM_CDR(v_2318571_25);
+Obj v_2318573_25 = PRIM_ISCONS(v_2318572_25);
+if (True == v_2318573_25) {
+Obj v_2318574_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318575_25 = PRIM_CDR(v_2318574_25);
+Obj v_2318576_25 = PRIM_CDR(v_2318575_25);
+Obj v_2318577_25 = PRIM_CAR(v_2318576_25);
+Obj v_c = v_2318577_25;
+Obj v_2318578_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318579_25 = PRIM_CDR(v_2318578_25);
+Obj v_2318580_25 = PRIM_CDR(v_2318579_25);
+Obj v_2318581_25 = PRIM_CDR(v_2318580_25);
+Obj v_2318582_25 = PRIM_EQ(Nil, v_2318581_25);
+if (True == v_2318582_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 3, clofun53, 1, 3, v_b, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 3, clofun60, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2317488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2317488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2317488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2317488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2317488_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316838_25);
+coraCall0(co, v_2317488_25);
 return;
 }
 }
@@ -5942,535 +5958,535 @@ return;
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
 R[1] = v_ra;
-saveCont(co, clofun53, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 2));
+saveCont(co, clofun60, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2317734_25= co->res;
-Obj v_2317733_25 = R[1];
+Obj v_2318584_25= co->res;
+Obj v_2318583_25 = R[1];
 Obj v_ra = R[2];
-Obj v_2317735_25 = makeCons(co->gc, v_2317734_25, Nil);
-Obj v_2317736_25 = makeCons(co->gc, v_2317733_25, v_2317735_25);
-Obj v_2317737_25 = makeCons(co->gc, v_ra, v_2317736_25);
-Obj v_2317738_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317737_25);
-coraReturn(co, v_2317738_25);
+Obj v_2318585_25 = makeCons(co->gc, v_2318584_25, Nil);
+Obj v_2318586_25 = makeCons(co->gc, v_2318583_25, v_2318585_25);
+Obj v_2318587_25 = makeCons(co->gc, v_ra, v_2318586_25);
+Obj v_2318588_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318587_25);
+coraReturn(co, v_2318588_25);
 return;
 }
 case 2:
 {
-Obj v_2317733_25= co->res;
+Obj v_2318583_25= co->res;
 Obj v_ra = R[1];
-R[1] = v_2317733_25;
+R[1] = v_2318583_25;
 R[2] = v_ra;
-saveCont(co, clofun53, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
+saveCont(co, clofun60, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316839_25 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317685_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317685_25) {
-Obj v_2317686_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317687_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317686_25);
-if (True == v_2317687_25) {
-Obj v_2317688_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317689_25 = PRIM_ISCONS(v_2317688_25);
-if (True == v_2317689_25) {
-Obj v_2317690_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317691_25 = PRIM_CAR(v_2317690_25);
-Obj v_a = v_2317691_25;
-Obj v_2317692_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317693_25 = PRIM_CDR(v_2317692_25);
-Obj v_2317694_25 = PRIM_ISCONS(v_2317693_25);
-if (True == v_2317694_25) {
-Obj v_2317695_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317696_25 = PRIM_CDR(v_2317695_25);
-Obj v_2317697_25 = PRIM_CAR(v_2317696_25);
-Obj v_b = v_2317697_25;
-Obj v_2317698_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317699_25 = PRIM_CDR(v_2317698_25);
-Obj v_2317700_25 = PRIM_CDR(v_2317699_25);
-Obj v_2317701_25 = PRIM_EQ(Nil, v_2317700_25);
-if (True == v_2317701_25) {
+Obj v_2317489_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318535_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318535_25) {
+Obj v_2318536_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318537_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318536_25);
+if (True == v_2318537_25) {
+Obj v_2318538_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318539_25 = PRIM_ISCONS(v_2318538_25);
+if (True == v_2318539_25) {
+Obj v_2318540_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318541_25 = PRIM_CAR(v_2318540_25);
+Obj v_a = v_2318541_25;
+Obj v_2318542_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318543_25 = PRIM_CDR(v_2318542_25);
+Obj v_2318544_25 = PRIM_ISCONS(v_2318543_25);
+if (True == v_2318544_25) {
+Obj v_2318545_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318546_25 = PRIM_CDR(v_2318545_25);
+Obj v_2318547_25 = PRIM_CAR(v_2318546_25);
+Obj v_b = v_2318547_25;
+Obj v_2318548_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318549_25 = PRIM_CDR(v_2318548_25);
+Obj v_2318550_25 = PRIM_CDR(v_2318549_25);
+Obj v_2318551_25 = PRIM_EQ(Nil, v_2318550_25);
+if (True == v_2318551_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_a, makeNative(co->gc, 2, clofun51, 1, 2, v_b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 2, clofun58, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2317489_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2317489_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2317489_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2317489_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316839_25);
+coraCall0(co, v_2317489_25);
 return;
 }
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v_2317702_25 = primIsSymbol(v_ra);
-if (True == v_2317702_25) {
+Obj v_2318552_25 = primIsSymbol(v_ra);
+if (True == v_2318552_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = v_ra;
-saveCont(co, clofun51, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
+saveCont(co, clofun58, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v_2317703_25= co->res;
+Obj v_2318553_25= co->res;
 Obj v_ra = R[1];
-Obj v_2317704_25 = makeCons(co->gc, v_2317703_25, Nil);
-Obj v_2317705_25 = makeCons(co->gc, v_ra, v_2317704_25);
-Obj v_2317706_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317705_25);
-coraReturn(co, v_2317706_25);
+Obj v_2318554_25 = makeCons(co->gc, v_2318553_25, Nil);
+Obj v_2318555_25 = makeCons(co->gc, v_ra, v_2318554_25);
+Obj v_2318556_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318555_25);
+coraReturn(co, v_2318556_25);
 return;
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316840_25 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317654_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317654_25) {
-Obj v_2317655_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317656_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317655_25);
-if (True == v_2317656_25) {
-Obj v_2317657_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317658_25 = PRIM_ISCONS(v_2317657_25);
-if (True == v_2317658_25) {
-Obj v_2317659_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317660_25 = PRIM_CAR(v_2317659_25);
-Obj v_a = v_2317660_25;
-Obj v_2317661_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317662_25 = PRIM_CDR(v_2317661_25);
-Obj v_2317663_25 = PRIM_ISCONS(v_2317662_25);
-if (True == v_2317663_25) {
-Obj v_2317664_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317665_25 = PRIM_CDR(v_2317664_25);
-Obj v_2317666_25 = PRIM_CAR(v_2317665_25);
-Obj v_b = v_2317666_25;
-Obj v_2317667_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317668_25 = PRIM_CDR(v_2317667_25);
-Obj v_2317669_25 = PRIM_CDR(v_2317668_25);
-Obj v_2317670_25 = PRIM_ISCONS(v_2317669_25);
-if (True == v_2317670_25) {
-Obj v_2317671_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317672_25 = PRIM_CDR(v_2317671_25);
-Obj v_2317673_25 = PRIM_CDR(v_2317672_25);
-Obj v_2317674_25 = PRIM_CAR(v_2317673_25);
-Obj v_c = v_2317674_25;
-Obj v_2317675_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317676_25 = PRIM_CDR(v_2317675_25);
-Obj v_2317677_25 = PRIM_CDR(v_2317676_25);
-Obj v_2317678_25 = PRIM_CDR(v_2317677_25);
-Obj v_2317679_25 = PRIM_EQ(Nil, v_2317678_25);
-if (True == v_2317679_25) {
+Obj v_2317490_25 = makeNative(co->gc, 3, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318504_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318504_25) {
+Obj v_2318505_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318506_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318505_25);
+if (True == v_2318506_25) {
+Obj v_2318507_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318508_25 = PRIM_ISCONS(v_2318507_25);
+if (True == v_2318508_25) {
+Obj v_2318509_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318510_25 = PRIM_CAR(v_2318509_25);
+Obj v_a = v_2318510_25;
+Obj v_2318511_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318512_25 = PRIM_CDR(v_2318511_25);
+Obj v_2318513_25 = PRIM_ISCONS(v_2318512_25);
+if (True == v_2318513_25) {
+Obj v_2318514_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318515_25 = PRIM_CDR(v_2318514_25);
+Obj v_2318516_25 = PRIM_CAR(v_2318515_25);
+Obj v_b = v_2318516_25;
+Obj v_2318517_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318518_25 = PRIM_CDR(v_2318517_25);
+Obj v_2318519_25 = PRIM_CDR(v_2318518_25);
+Obj v_2318520_25 = PRIM_ISCONS(v_2318519_25);
+if (True == v_2318520_25) {
+Obj v_2318521_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318522_25 = PRIM_CDR(v_2318521_25);
+Obj v_2318523_25 = PRIM_CDR(v_2318522_25);
+Obj v_2318524_25 = PRIM_CAR(v_2318523_25);
+Obj v_c = v_2318524_25;
+Obj v_2318525_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318526_25 = PRIM_CDR(v_2318525_25);
+Obj v_2318527_25 = PRIM_CDR(v_2318526_25);
+Obj v_2318528_25 = PRIM_CDR(v_2318527_25);
+Obj v_2318529_25 = PRIM_EQ(Nil, v_2318528_25);
+if (True == v_2318529_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_b, makeNative(co->gc, 2, clofun49, 1, 3, v_a, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_b, makeNative(co->gc, 2, clofun56, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2317490_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2317490_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2317490_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2317490_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2317490_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316840_25);
+coraCall0(co, v_2317490_25);
 return;
 }
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rb = R[1];
 R[1] = v_rb;
-saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
+saveCont(co, clofun56, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2317680_25= co->res;
+Obj v_2318530_25= co->res;
 Obj v_rb = R[1];
-Obj v_2317681_25 = makeCons(co->gc, v_2317680_25, Nil);
-Obj v_2317682_25 = makeCons(co->gc, v_rb, v_2317681_25);
-Obj v_2317683_25 = makeCons(co->gc, closureRef(R[0], 0), v_2317682_25);
-Obj v_2317684_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317683_25);
-coraReturn(co, v_2317684_25);
+Obj v_2318531_25 = makeCons(co->gc, v_2318530_25, Nil);
+Obj v_2318532_25 = makeCons(co->gc, v_rb, v_2318531_25);
+Obj v_2318533_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318532_25);
+Obj v_2318534_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318533_25);
+coraReturn(co, v_2318534_25);
 return;
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316841_25 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317610_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317610_25) {
-Obj v_2317611_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317612_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317611_25);
-if (True == v_2317612_25) {
-Obj v_2317613_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317614_25 = PRIM_ISCONS(v_2317613_25);
-if (True == v_2317614_25) {
-Obj v_2317615_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317616_25 = PRIM_CAR(v_2317615_25);
-Obj v_2317617_25 = PRIM_ISCONS(v_2317616_25);
-if (True == v_2317617_25) {
-Obj v_2317618_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317619_25 = PRIM_CAR(v_2317618_25);
-Obj v_2317620_25 = PRIM_CAR(v_2317619_25);
-Obj v_2317621_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317620_25);
-if (True == v_2317621_25) {
-Obj v_2317622_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317623_25 = PRIM_CAR(v_2317622_25);
-Obj v_2317624_25 = PRIM_CDR(v_2317623_25);
-Obj v_2317625_25 = PRIM_ISCONS(v_2317624_25);
-if (True == v_2317625_25) {
-Obj v_2317626_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317627_25 = PRIM_CAR(v_2317626_25);
-Obj v_2317628_25 = PRIM_CDR(v_2317627_25);
-Obj v_2317629_25 = PRIM_CAR(v_2317628_25);
-Obj v_args = v_2317629_25;
-Obj v_2317630_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317631_25 = PRIM_CAR(v_2317630_25);
-Obj v_2317632_25 = PRIM_CDR(v_2317631_25);
-Obj v_2317633_25 = PRIM_CDR(v_2317632_25);
-Obj v_2317634_25 = PRIM_ISCONS(v_2317633_25);
-if (True == v_2317634_25) {
-Obj v_2317635_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317636_25 = PRIM_CAR(v_2317635_25);
-Obj v_2317637_25 = PRIM_CDR(v_2317636_25);
-Obj v_2317638_25 = PRIM_CDR(v_2317637_25);
-Obj v_2317639_25 = PRIM_CAR(v_2317638_25);
-Obj v_body = v_2317639_25;
-Obj v_2317640_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317641_25 = PRIM_CAR(v_2317640_25);
-Obj v_2317642_25 = PRIM_CDR(v_2317641_25);
-Obj v_2317643_25 = PRIM_CDR(v_2317642_25);
-Obj v_2317644_25 = PRIM_CDR(v_2317643_25);
-Obj v_2317645_25 = PRIM_EQ(Nil, v_2317644_25);
-if (True == v_2317645_25) {
-Obj v_2317646_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317647_25 = PRIM_CDR(v_2317646_25);
-Obj v_frees = v_2317647_25;
+Obj v_2317491_25 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318460_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318460_25) {
+Obj v_2318461_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318462_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318461_25);
+if (True == v_2318462_25) {
+Obj v_2318463_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318464_25 = PRIM_ISCONS(v_2318463_25);
+if (True == v_2318464_25) {
+Obj v_2318465_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318466_25 = PRIM_CAR(v_2318465_25);
+Obj v_2318467_25 = PRIM_ISCONS(v_2318466_25);
+if (True == v_2318467_25) {
+Obj v_2318468_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318469_25 = PRIM_CAR(v_2318468_25);
+Obj v_2318470_25 = PRIM_CAR(v_2318469_25);
+Obj v_2318471_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318470_25);
+if (True == v_2318471_25) {
+Obj v_2318472_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318473_25 = PRIM_CAR(v_2318472_25);
+Obj v_2318474_25 = PRIM_CDR(v_2318473_25);
+Obj v_2318475_25 = PRIM_ISCONS(v_2318474_25);
+if (True == v_2318475_25) {
+Obj v_2318476_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318477_25 = PRIM_CAR(v_2318476_25);
+Obj v_2318478_25 = PRIM_CDR(v_2318477_25);
+Obj v_2318479_25 = PRIM_CAR(v_2318478_25);
+Obj v_args = v_2318479_25;
+Obj v_2318480_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318481_25 = PRIM_CAR(v_2318480_25);
+Obj v_2318482_25 = PRIM_CDR(v_2318481_25);
+Obj v_2318483_25 = PRIM_CDR(v_2318482_25);
+Obj v_2318484_25 = PRIM_ISCONS(v_2318483_25);
+if (True == v_2318484_25) {
+Obj v_2318485_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318486_25 = PRIM_CAR(v_2318485_25);
+Obj v_2318487_25 = PRIM_CDR(v_2318486_25);
+Obj v_2318488_25 = PRIM_CDR(v_2318487_25);
+Obj v_2318489_25 = PRIM_CAR(v_2318488_25);
+Obj v_body = v_2318489_25;
+Obj v_2318490_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318491_25 = PRIM_CAR(v_2318490_25);
+Obj v_2318492_25 = PRIM_CDR(v_2318491_25);
+Obj v_2318493_25 = PRIM_CDR(v_2318492_25);
+Obj v_2318494_25 = PRIM_CDR(v_2318493_25);
+Obj v_2318495_25 = PRIM_EQ(Nil, v_2318494_25);
+if (True == v_2318495_25) {
+Obj v_2318496_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318497_25 = PRIM_CDR(v_2318496_25);
+Obj v_frees = v_2318497_25;
 R[1] = v_args;
 R[2] = v_frees;
-saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_body, globalRef(co, getBinding(co, packageID, 71)));
+saveCont(co, clofun55, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_body, globalRef(co, getBinding(co, packageID, 69)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316841_25);
+coraCall0(co, v_2317491_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317648_25= co->res;
+Obj v_2318498_25= co->res;
 Obj v_args = R[1];
 Obj v_frees = R[2];
-Obj v_2317649_25 = makeCons(co->gc, v_2317648_25, Nil);
-Obj v_2317650_25 = makeCons(co->gc, v_args, v_2317649_25);
-Obj v_2317651_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317650_25);
-Obj v_2317652_25 = makeCons(co->gc, v_2317651_25, v_frees);
-Obj v_2317653_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317652_25);
+Obj v_2318499_25 = makeCons(co->gc, v_2318498_25, Nil);
+Obj v_2318500_25 = makeCons(co->gc, v_args, v_2318499_25);
+Obj v_2318501_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318500_25);
+Obj v_2318502_25 = makeCons(co->gc, v_2318501_25, v_frees);
+Obj v_2318503_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318502_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v_2317653_25);
+coraCall1(co, closureRef(R[0], 1), v_2318503_25);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317606_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317606_25) {
-Obj v_2317607_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317607_25;
-Obj v_2317608_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317608_25;
-Obj v_2317609_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318456_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318456_25) {
+Obj v_2318457_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318457_25;
+Obj v_2318458_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318458_25;
+Obj v_2318459_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), v_2317609_25, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2318459_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2317602_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2317603_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2317602_25);
-coraReturn(co, v_2317603_25);
+Obj v_2318452_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2318453_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2318452_25);
+coraReturn(co, v_2318453_25);
 return;
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316827_25 = R[1];
-Obj v_2316828_25 = R[2];
-R[1] = v_2316828_25;
-R[2] = v_2316827_25;
-saveCont(co, clofun45, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316828_25);
+Obj v_2317477_25 = R[1];
+Obj v_2317478_25 = R[2];
+R[1] = v_2317478_25;
+R[2] = v_2317477_25;
+saveCont(co, clofun52, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317478_25);
 return;
 }
 case 1:
 {
-Obj v_2317531_25= co->res;
-Obj v_2316828_25 = R[1];
-Obj v_pos = v_2317531_25;
-Obj v_2317532_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
-if (True == v_2317532_25) {
-coraReturn(co, v_2316828_25);
+Obj v_2318381_25= co->res;
+Obj v_2317478_25 = R[1];
+Obj v_pos = v_2318381_25;
+Obj v_2318382_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2318382_25) {
+coraReturn(co, v_2317478_25);
 return;
 } else {
-Obj v_2317533_25 = makeCons(co->gc, v_pos, Nil);
-Obj v_2317534_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2317533_25);
-coraReturn(co, v_2317534_25);
+Obj v_2318383_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2318384_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318383_25);
+coraReturn(co, v_2318384_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2317598_25= co->res;
-Obj v_2317596_25 = R[1];
-Obj v_2317599_25 = makeCons(co->gc, v_2317596_25, v_2317598_25);
-Obj v_2317600_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317599_25);
-coraReturn(co, v_2317600_25);
+Obj v_2318448_25= co->res;
+Obj v_2318446_25 = R[1];
+Obj v_2318449_25 = makeCons(co->gc, v_2318446_25, v_2318448_25);
+Obj v_2318450_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318449_25);
+coraReturn(co, v_2318450_25);
 return;
 }
 case 3:
 {
-Obj v_2317597_25= co->res;
+Obj v_2318447_25= co->res;
 Obj v_fvs1 = R[1];
-Obj v_2317596_25 = R[2];
-R[1] = v_2317596_25;
-saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317597_25, v_fvs1);
+Obj v_2318446_25 = R[2];
+R[1] = v_2318446_25;
+saveCont(co, clofun52, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318447_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2317593_25= co->res;
+Obj v_2318443_25= co->res;
 Obj v_args = R[1];
-Obj v_2316827_25 = R[2];
+Obj v_2317477_25 = R[2];
 Obj v_fvs1 = R[3];
-Obj v_2317594_25 = makeCons(co->gc, v_2317593_25, Nil);
-Obj v_2317595_25 = makeCons(co->gc, v_args, v_2317594_25);
-Obj v_2317596_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317595_25);
+Obj v_2318444_25 = makeCons(co->gc, v_2318443_25, Nil);
+Obj v_2318445_25 = makeCons(co->gc, v_args, v_2318444_25);
+Obj v_2318446_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318445_25);
 R[1] = v_fvs1;
-R[2] = v_2317596_25;
-saveCont(co, clofun45, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2316827_25);
+R[2] = v_2318446_25;
+saveCont(co, clofun52, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2317477_25);
 return;
 }
 case 5:
 {
-Obj v_2317592_25= co->res;
+Obj v_2318442_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2316827_25 = R[3];
-Obj v_fvs1 = v_2317592_25;
+Obj v_2317477_25 = R[3];
+Obj v_fvs1 = v_2318442_25;
 R[1] = v_args;
-R[2] = v_2316827_25;
+R[2] = v_2317477_25;
 R[3] = v_fvs1;
-saveCont(co, clofun45, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), v_fvs1, v_body);
+saveCont(co, clofun52, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_fvs1, v_body);
 return;
 }
 case 6:
 {
-Obj v_2317529_25= co->res;
-Obj v_2316828_25 = R[1];
-Obj v_2316827_25 = R[2];
-if (True == v_2317529_25) {
-coraReturn(co, v_2316828_25);
-return;
-} else {
-Obj v_2317530_25 = primIsSymbol(v_2316828_25);
-if (True == v_2317530_25) {
-R[1] = v_2316828_25;
-saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v_2316828_25, v_2316827_25);
-return;
-} else {
-Obj v_2316831_25 = makeNative(co->gc, 3, clofun44, 0, 2, v_2316828_25, v_2316827_25);
-Obj v_2317572_25 = PRIM_ISCONS(v_2316828_25);
-if (True == v_2317572_25) {
-Obj v_2317573_25 = PRIM_CAR(v_2316828_25);
-Obj v_2317574_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317573_25);
-if (True == v_2317574_25) {
-Obj v_2317575_25 = PRIM_CDR(v_2316828_25);
-Obj v_2317576_25 = PRIM_ISCONS(v_2317575_25);
-if (True == v_2317576_25) {
-Obj v_2317577_25 = PRIM_CDR(v_2316828_25);
-Obj v_2317578_25 = PRIM_CAR(v_2317577_25);
-Obj v_args = v_2317578_25;
-Obj v_2317579_25 = PRIM_CDR(v_2316828_25);
-Obj v_2317580_25 = PRIM_CDR(v_2317579_25);
-Obj v_2317581_25 = PRIM_ISCONS(v_2317580_25);
-if (True == v_2317581_25) {
-Obj v_2317582_25 = PRIM_CDR(v_2316828_25);
-Obj v_2317583_25 = PRIM_CDR(v_2317582_25);
-Obj v_2317584_25 = PRIM_CAR(v_2317583_25);
-Obj v_body = v_2317584_25;
-Obj v_2317585_25 = PRIM_CDR(v_2316828_25);
-Obj v_2317586_25 = PRIM_CDR(v_2317585_25);
-Obj v_2317587_25 = PRIM_CDR(v_2317586_25);
-Obj v_2317588_25 = PRIM_EQ(Nil, v_2317587_25);
-if (True == v_2317588_25) {
-Obj v_2317589_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2317590_25 = makeCons(co->gc, v_args, v_2317589_25);
-Obj v_2317591_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317590_25);
+Obj v_2318379_25= co->res;
+Obj v_2317478_25 = R[1];
+Obj v_2317477_25 = R[2];
+if (True == v_2318379_25) {
+coraReturn(co, v_2317478_25);
+return;
+} else {
+Obj v_2318380_25 = primIsSymbol(v_2317478_25);
+if (True == v_2318380_25) {
+R[1] = v_2317478_25;
+saveCont(co, clofun52, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317478_25, v_2317477_25);
+return;
+} else {
+Obj v_2317481_25 = makeNative(co->gc, 3, clofun51, 0, 2, v_2317478_25, v_2317477_25);
+Obj v_2318422_25 = PRIM_ISCONS(v_2317478_25);
+if (True == v_2318422_25) {
+Obj v_2318423_25 = PRIM_CAR(v_2317478_25);
+Obj v_2318424_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318423_25);
+if (True == v_2318424_25) {
+Obj v_2318425_25 = PRIM_CDR(v_2317478_25);
+Obj v_2318426_25 = PRIM_ISCONS(v_2318425_25);
+if (True == v_2318426_25) {
+Obj v_2318427_25 = PRIM_CDR(v_2317478_25);
+Obj v_2318428_25 = PRIM_CAR(v_2318427_25);
+Obj v_args = v_2318428_25;
+Obj v_2318429_25 = PRIM_CDR(v_2317478_25);
+Obj v_2318430_25 = PRIM_CDR(v_2318429_25);
+Obj v_2318431_25 = PRIM_ISCONS(v_2318430_25);
+if (True == v_2318431_25) {
+Obj v_2318432_25 = PRIM_CDR(v_2317478_25);
+Obj v_2318433_25 = PRIM_CDR(v_2318432_25);
+Obj v_2318434_25 = PRIM_CAR(v_2318433_25);
+Obj v_body = v_2318434_25;
+Obj v_2318435_25 = PRIM_CDR(v_2317478_25);
+Obj v_2318436_25 = PRIM_CDR(v_2318435_25);
+Obj v_2318437_25 = PRIM_CDR(v_2318436_25);
+Obj v_2318438_25 = PRIM_EQ(Nil, v_2318437_25);
+if (True == v_2318438_25) {
+Obj v_2318439_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2318440_25 = makeCons(co->gc, v_args, v_2318439_25);
+Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318440_25);
 R[1] = v_body;
 R[2] = v_args;
-R[3] = v_2316827_25;
-saveCont(co, clofun45, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317591_25);
+R[3] = v_2317477_25;
+saveCont(co, clofun52, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318441_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316831_25);
+coraCall0(co, v_2317481_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316831_25);
+coraCall0(co, v_2317481_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316831_25);
+coraCall0(co, v_2317481_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316831_25);
+coraCall0(co, v_2317481_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316831_25);
+coraCall0(co, v_2317481_25);
 return;
 }
 }
@@ -6479,226 +6495,226 @@ return;
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316832_25 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2317540_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317540_25) {
-Obj v_2317541_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317542_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317541_25);
-if (True == v_2317542_25) {
-Obj v_2317543_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317544_25 = PRIM_ISCONS(v_2317543_25);
-if (True == v_2317544_25) {
-Obj v_2317545_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317546_25 = PRIM_CAR(v_2317545_25);
-Obj v_a = v_2317546_25;
-Obj v_2317547_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317548_25 = PRIM_CDR(v_2317547_25);
-Obj v_2317549_25 = PRIM_ISCONS(v_2317548_25);
-if (True == v_2317549_25) {
-Obj v_2317550_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317551_25 = PRIM_CDR(v_2317550_25);
-Obj v_2317552_25 = PRIM_CAR(v_2317551_25);
-Obj v_b = v_2317552_25;
-Obj v_2317553_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317554_25 = PRIM_CDR(v_2317553_25);
-Obj v_2317555_25 = PRIM_CDR(v_2317554_25);
-Obj v_2317556_25 = PRIM_ISCONS(v_2317555_25);
-if (True == v_2317556_25) {
-Obj v_2317557_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317558_25 = PRIM_CDR(v_2317557_25);
-Obj v_2317559_25 = PRIM_CDR(v_2317558_25);
-Obj v_2317560_25 = PRIM_CAR(v_2317559_25);
-Obj v_c = v_2317560_25;
-Obj v_2317561_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317562_25 = PRIM_CDR(v_2317561_25);
-Obj v_2317563_25 = PRIM_CDR(v_2317562_25);
-Obj v_2317564_25 = PRIM_CDR(v_2317563_25);
-Obj v_2317565_25 = PRIM_EQ(Nil, v_2317564_25);
-if (True == v_2317565_25) {
+Obj v_2317482_25 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318390_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318390_25) {
+Obj v_2318391_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318392_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318391_25);
+if (True == v_2318392_25) {
+Obj v_2318393_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318394_25 = PRIM_ISCONS(v_2318393_25);
+if (True == v_2318394_25) {
+Obj v_2318395_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318396_25 = PRIM_CAR(v_2318395_25);
+Obj v_a = v_2318396_25;
+Obj v_2318397_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318398_25 = PRIM_CDR(v_2318397_25);
+Obj v_2318399_25 = PRIM_ISCONS(v_2318398_25);
+if (True == v_2318399_25) {
+Obj v_2318400_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318401_25 = PRIM_CDR(v_2318400_25);
+Obj v_2318402_25 = PRIM_CAR(v_2318401_25);
+Obj v_b = v_2318402_25;
+Obj v_2318403_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318404_25 = PRIM_CDR(v_2318403_25);
+Obj v_2318405_25 = PRIM_CDR(v_2318404_25);
+Obj v_2318406_25 = PRIM_ISCONS(v_2318405_25);
+if (True == v_2318406_25) {
+Obj v_2318407_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318408_25 = PRIM_CDR(v_2318407_25);
+Obj v_2318409_25 = PRIM_CDR(v_2318408_25);
+Obj v_2318410_25 = PRIM_CAR(v_2318409_25);
+Obj v_c = v_2318410_25;
+Obj v_2318411_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318412_25 = PRIM_CDR(v_2318411_25);
+Obj v_2318413_25 = PRIM_CDR(v_2318412_25);
+Obj v_2318414_25 = PRIM_CDR(v_2318413_25);
+Obj v_2318415_25 = PRIM_EQ(Nil, v_2318414_25);
+if (True == v_2318415_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), v_b);
+saveCont(co, clofun51, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2317482_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2317482_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2317482_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2317482_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2317482_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316832_25);
+coraCall0(co, v_2317482_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317567_25= co->res;
-Obj v_2317566_25 = R[1];
+Obj v_2318417_25= co->res;
+Obj v_2318416_25 = R[1];
 Obj v_a = R[2];
-Obj v_2317568_25 = makeCons(co->gc, v_2317567_25, Nil);
-Obj v_2317569_25 = makeCons(co->gc, v_2317566_25, v_2317568_25);
-Obj v_2317570_25 = makeCons(co->gc, v_a, v_2317569_25);
-Obj v_2317571_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317570_25);
-coraReturn(co, v_2317571_25);
+Obj v_2318418_25 = makeCons(co->gc, v_2318417_25, Nil);
+Obj v_2318419_25 = makeCons(co->gc, v_2318416_25, v_2318418_25);
+Obj v_2318420_25 = makeCons(co->gc, v_a, v_2318419_25);
+Obj v_2318421_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318420_25);
+coraReturn(co, v_2318421_25);
 return;
 }
 case 2:
 {
-Obj v_2317566_25= co->res;
+Obj v_2318416_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-R[1] = v_2317566_25;
+R[1] = v_2318416_25;
 R[2] = v_a;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), v_c);
+saveCont(co, clofun51, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v_c);
 return;
 }
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317535_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317535_25) {
-Obj v_2317536_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317536_25;
-Obj v_2317537_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317537_25;
+Obj v_2318385_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318385_25) {
+Obj v_2318386_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318386_25;
+Obj v_2318387_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318387_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun43, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1));
+saveCont(co, clofun50, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317538_25= co->res;
+Obj v_2318388_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2317539_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318389_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317538_25, v_2317539_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318388_25, v_2318389_25);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316814_25 = R[1];
-R[1] = v_2316814_25;
-saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2316814_25);
+Obj v_2317464_25 = R[1];
+R[1] = v_2317464_25;
+saveCont(co, clofun49, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317464_25);
 return;
 }
 case 1:
 {
-Obj v_2317527_25= co->res;
+Obj v_2318377_25= co->res;
 Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317527_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318377_25, v_args);
 return;
 }
 case 2:
 {
-Obj v_2317354_25= co->res;
-Obj v_2316814_25 = R[1];
-if (True == v_2317354_25) {
+Obj v_2318204_25= co->res;
+Obj v_2317464_25 = R[1];
+if (True == v_2318204_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317355_25 = primIsSymbol(v_2316814_25);
-if (True == v_2317355_25) {
-Obj v_2317356_25 = makeCons(co->gc, v_2316814_25, Nil);
-coraReturn(co, v_2317356_25);
-return;
-} else {
-Obj v_2316817_25 = makeNative(co->gc, 1, clofun41, 0, 1, v_2316814_25);
-Obj v_2317510_25 = PRIM_ISCONS(v_2316814_25);
-if (True == v_2317510_25) {
-Obj v_2317511_25 = PRIM_CAR(v_2316814_25);
-Obj v_2317512_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317511_25);
-if (True == v_2317512_25) {
-Obj v_2317513_25 = PRIM_CDR(v_2316814_25);
-Obj v_2317514_25 = PRIM_ISCONS(v_2317513_25);
-if (True == v_2317514_25) {
-Obj v_2317515_25 = PRIM_CDR(v_2316814_25);
-Obj v_2317516_25 = PRIM_CAR(v_2317515_25);
-Obj v_args = v_2317516_25;
-Obj v_2317517_25 = PRIM_CDR(v_2316814_25);
-Obj v_2317518_25 = PRIM_CDR(v_2317517_25);
-Obj v_2317519_25 = PRIM_ISCONS(v_2317518_25);
-if (True == v_2317519_25) {
-Obj v_2317520_25 = PRIM_CDR(v_2316814_25);
-Obj v_2317521_25 = PRIM_CDR(v_2317520_25);
-Obj v_2317522_25 = PRIM_CAR(v_2317521_25);
-Obj v_body = v_2317522_25;
-Obj v_2317523_25 = PRIM_CDR(v_2316814_25);
-Obj v_2317524_25 = PRIM_CDR(v_2317523_25);
-Obj v_2317525_25 = PRIM_CDR(v_2317524_25);
-Obj v_2317526_25 = PRIM_EQ(Nil, v_2317525_25);
-if (True == v_2317526_25) {
+Obj v_2318205_25 = primIsSymbol(v_2317464_25);
+if (True == v_2318205_25) {
+Obj v_2318206_25 = makeCons(co->gc, v_2317464_25, Nil);
+coraReturn(co, v_2318206_25);
+return;
+} else {
+Obj v_2317467_25 = makeNative(co->gc, 1, clofun48, 0, 1, v_2317464_25);
+Obj v_2318360_25 = PRIM_ISCONS(v_2317464_25);
+if (True == v_2318360_25) {
+Obj v_2318361_25 = PRIM_CAR(v_2317464_25);
+Obj v_2318362_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318361_25);
+if (True == v_2318362_25) {
+Obj v_2318363_25 = PRIM_CDR(v_2317464_25);
+Obj v_2318364_25 = PRIM_ISCONS(v_2318363_25);
+if (True == v_2318364_25) {
+Obj v_2318365_25 = PRIM_CDR(v_2317464_25);
+Obj v_2318366_25 = PRIM_CAR(v_2318365_25);
+Obj v_args = v_2318366_25;
+Obj v_2318367_25 = PRIM_CDR(v_2317464_25);
+Obj v_2318368_25 = PRIM_CDR(v_2318367_25);
+Obj v_2318369_25 = PRIM_ISCONS(v_2318368_25);
+if (True == v_2318369_25) {
+Obj v_2318370_25 = PRIM_CDR(v_2317464_25);
+Obj v_2318371_25 = PRIM_CDR(v_2318370_25);
+Obj v_2318372_25 = PRIM_CAR(v_2318371_25);
+Obj v_body = v_2318372_25;
+Obj v_2318373_25 = PRIM_CDR(v_2317464_25);
+Obj v_2318374_25 = PRIM_CDR(v_2318373_25);
+Obj v_2318375_25 = PRIM_CDR(v_2318374_25);
+Obj v_2318376_25 = PRIM_EQ(Nil, v_2318375_25);
+if (True == v_2318376_25) {
 R[1] = v_args;
-saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
+saveCont(co, clofun49, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316817_25);
+coraCall0(co, v_2317467_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316817_25);
+coraCall0(co, v_2317467_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316817_25);
+coraCall0(co, v_2317467_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316817_25);
+coraCall0(co, v_2317467_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316817_25);
+coraCall0(co, v_2317467_25);
 return;
 }
 }
@@ -6707,859 +6723,859 @@ return;
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316818_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v_2317480_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317480_25) {
-Obj v_2317481_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317482_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317481_25);
-if (True == v_2317482_25) {
-Obj v_2317483_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317484_25 = PRIM_ISCONS(v_2317483_25);
-if (True == v_2317484_25) {
-Obj v_2317485_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317486_25 = PRIM_CAR(v_2317485_25);
-Obj v_x = v_2317486_25;
-Obj v_2317487_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317488_25 = PRIM_CDR(v_2317487_25);
-Obj v_2317489_25 = PRIM_ISCONS(v_2317488_25);
-if (True == v_2317489_25) {
-Obj v_2317490_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317491_25 = PRIM_CDR(v_2317490_25);
-Obj v_2317492_25 = PRIM_CAR(v_2317491_25);
-Obj v_y = v_2317492_25;
-Obj v_2317493_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317494_25 = PRIM_CDR(v_2317493_25);
-Obj v_2317495_25 = PRIM_CDR(v_2317494_25);
-Obj v_2317496_25 = PRIM_ISCONS(v_2317495_25);
-if (True == v_2317496_25) {
-Obj v_2317497_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317498_25 = PRIM_CDR(v_2317497_25);
-Obj v_2317499_25 = PRIM_CDR(v_2317498_25);
-Obj v_2317500_25 = PRIM_CAR(v_2317499_25);
-Obj v_z = v_2317500_25;
-Obj v_2317501_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317502_25 = PRIM_CDR(v_2317501_25);
-Obj v_2317503_25 = PRIM_CDR(v_2317502_25);
-Obj v_2317504_25 = PRIM_CDR(v_2317503_25);
-Obj v_2317505_25 = PRIM_EQ(Nil, v_2317504_25);
-if (True == v_2317505_25) {
-Obj v_2317506_25 = makeCons(co->gc, v_z, Nil);
-Obj v_2317507_25 = makeCons(co->gc, v_y, v_2317506_25);
-Obj v_2317508_25 = makeCons(co->gc, v_x, v_2317507_25);
-saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317508_25);
+Obj v_2317468_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
+Obj v_2318330_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318330_25) {
+Obj v_2318331_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318332_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318331_25);
+if (True == v_2318332_25) {
+Obj v_2318333_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318334_25 = PRIM_ISCONS(v_2318333_25);
+if (True == v_2318334_25) {
+Obj v_2318335_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318336_25 = PRIM_CAR(v_2318335_25);
+Obj v_x = v_2318336_25;
+Obj v_2318337_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318338_25 = PRIM_CDR(v_2318337_25);
+Obj v_2318339_25 = PRIM_ISCONS(v_2318338_25);
+if (True == v_2318339_25) {
+Obj v_2318340_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318341_25 = PRIM_CDR(v_2318340_25);
+Obj v_2318342_25 = PRIM_CAR(v_2318341_25);
+Obj v_y = v_2318342_25;
+Obj v_2318343_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318344_25 = PRIM_CDR(v_2318343_25);
+Obj v_2318345_25 = PRIM_CDR(v_2318344_25);
+Obj v_2318346_25 = PRIM_ISCONS(v_2318345_25);
+if (True == v_2318346_25) {
+Obj v_2318347_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318348_25 = PRIM_CDR(v_2318347_25);
+Obj v_2318349_25 = PRIM_CDR(v_2318348_25);
+Obj v_2318350_25 = PRIM_CAR(v_2318349_25);
+Obj v_z = v_2318350_25;
+Obj v_2318351_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318352_25 = PRIM_CDR(v_2318351_25);
+Obj v_2318353_25 = PRIM_CDR(v_2318352_25);
+Obj v_2318354_25 = PRIM_CDR(v_2318353_25);
+Obj v_2318355_25 = PRIM_EQ(Nil, v_2318354_25);
+if (True == v_2318355_25) {
+Obj v_2318356_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2318357_25 = makeCons(co->gc, v_y, v_2318356_25);
+Obj v_2318358_25 = makeCons(co->gc, v_x, v_2318357_25);
+saveCont(co, clofun48, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318358_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316818_25);
+coraCall0(co, v_2317468_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316818_25);
+coraCall0(co, v_2317468_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316818_25);
+coraCall0(co, v_2317468_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316818_25);
+coraCall0(co, v_2317468_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316818_25);
+coraCall0(co, v_2317468_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316818_25);
+coraCall0(co, v_2317468_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317509_25= co->res;
+Obj v_2318359_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317509_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318359_25);
 return;
 }
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316819_25 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v_2317460_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317460_25) {
-Obj v_2317461_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317462_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317461_25);
-if (True == v_2317462_25) {
-Obj v_2317463_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317464_25 = PRIM_ISCONS(v_2317463_25);
-if (True == v_2317464_25) {
-Obj v_2317465_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317466_25 = PRIM_CAR(v_2317465_25);
-Obj v_x = v_2317466_25;
-Obj v_2317467_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317468_25 = PRIM_CDR(v_2317467_25);
-Obj v_2317469_25 = PRIM_ISCONS(v_2317468_25);
-if (True == v_2317469_25) {
-Obj v_2317470_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317471_25 = PRIM_CDR(v_2317470_25);
-Obj v_2317472_25 = PRIM_CAR(v_2317471_25);
-Obj v_y = v_2317472_25;
-Obj v_2317473_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317474_25 = PRIM_CDR(v_2317473_25);
-Obj v_2317475_25 = PRIM_CDR(v_2317474_25);
-Obj v_2317476_25 = PRIM_EQ(Nil, v_2317475_25);
-if (True == v_2317476_25) {
-Obj v_2317477_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2317478_25 = makeCons(co->gc, v_x, v_2317477_25);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317478_25);
+Obj v_2317469_25 = makeNative(co->gc, 3, clofun46, 0, 1, closureRef(R[0], 0));
+Obj v_2318310_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318310_25) {
+Obj v_2318311_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318312_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318311_25);
+if (True == v_2318312_25) {
+Obj v_2318313_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318314_25 = PRIM_ISCONS(v_2318313_25);
+if (True == v_2318314_25) {
+Obj v_2318315_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318316_25 = PRIM_CAR(v_2318315_25);
+Obj v_x = v_2318316_25;
+Obj v_2318317_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318318_25 = PRIM_CDR(v_2318317_25);
+Obj v_2318319_25 = PRIM_ISCONS(v_2318318_25);
+if (True == v_2318319_25) {
+Obj v_2318320_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318321_25 = PRIM_CDR(v_2318320_25);
+Obj v_2318322_25 = PRIM_CAR(v_2318321_25);
+Obj v_y = v_2318322_25;
+Obj v_2318323_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318324_25 = PRIM_CDR(v_2318323_25);
+Obj v_2318325_25 = PRIM_CDR(v_2318324_25);
+Obj v_2318326_25 = PRIM_EQ(Nil, v_2318325_25);
+if (True == v_2318326_25) {
+Obj v_2318327_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2318328_25 = makeCons(co->gc, v_x, v_2318327_25);
+saveCont(co, clofun47, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318328_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316819_25);
+coraCall0(co, v_2317469_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316819_25);
+coraCall0(co, v_2317469_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316819_25);
+coraCall0(co, v_2317469_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316819_25);
+coraCall0(co, v_2317469_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316819_25);
+coraCall0(co, v_2317469_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317479_25= co->res;
+Obj v_2318329_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317479_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318329_25);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316820_25 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v_2317430_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317430_25) {
-Obj v_2317431_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317432_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317431_25);
-if (True == v_2317432_25) {
-Obj v_2317433_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317434_25 = PRIM_ISCONS(v_2317433_25);
-if (True == v_2317434_25) {
-Obj v_2317435_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317436_25 = PRIM_CAR(v_2317435_25);
-Obj v_a = v_2317436_25;
-Obj v_2317437_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317438_25 = PRIM_CDR(v_2317437_25);
-Obj v_2317439_25 = PRIM_ISCONS(v_2317438_25);
-if (True == v_2317439_25) {
-Obj v_2317440_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317441_25 = PRIM_CDR(v_2317440_25);
-Obj v_2317442_25 = PRIM_CAR(v_2317441_25);
-Obj v_b = v_2317442_25;
-Obj v_2317443_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317444_25 = PRIM_CDR(v_2317443_25);
-Obj v_2317445_25 = PRIM_CDR(v_2317444_25);
-Obj v_2317446_25 = PRIM_ISCONS(v_2317445_25);
-if (True == v_2317446_25) {
-Obj v_2317447_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317448_25 = PRIM_CDR(v_2317447_25);
-Obj v_2317449_25 = PRIM_CDR(v_2317448_25);
-Obj v_2317450_25 = PRIM_CAR(v_2317449_25);
-Obj v_c = v_2317450_25;
-Obj v_2317451_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317452_25 = PRIM_CDR(v_2317451_25);
-Obj v_2317453_25 = PRIM_CDR(v_2317452_25);
-Obj v_2317454_25 = PRIM_CDR(v_2317453_25);
-Obj v_2317455_25 = PRIM_EQ(Nil, v_2317454_25);
-if (True == v_2317455_25) {
+Obj v_2317470_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
+Obj v_2318280_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318280_25) {
+Obj v_2318281_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318282_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318281_25);
+if (True == v_2318282_25) {
+Obj v_2318283_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318284_25 = PRIM_ISCONS(v_2318283_25);
+if (True == v_2318284_25) {
+Obj v_2318285_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318286_25 = PRIM_CAR(v_2318285_25);
+Obj v_a = v_2318286_25;
+Obj v_2318287_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318288_25 = PRIM_CDR(v_2318287_25);
+Obj v_2318289_25 = PRIM_ISCONS(v_2318288_25);
+if (True == v_2318289_25) {
+Obj v_2318290_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318291_25 = PRIM_CDR(v_2318290_25);
+Obj v_2318292_25 = PRIM_CAR(v_2318291_25);
+Obj v_b = v_2318292_25;
+Obj v_2318293_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318294_25 = PRIM_CDR(v_2318293_25);
+Obj v_2318295_25 = PRIM_CDR(v_2318294_25);
+Obj v_2318296_25 = PRIM_ISCONS(v_2318295_25);
+if (True == v_2318296_25) {
+Obj v_2318297_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318298_25 = PRIM_CDR(v_2318297_25);
+Obj v_2318299_25 = PRIM_CDR(v_2318298_25);
+Obj v_2318300_25 = PRIM_CAR(v_2318299_25);
+Obj v_c = v_2318300_25;
+Obj v_2318301_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318302_25 = PRIM_CDR(v_2318301_25);
+Obj v_2318303_25 = PRIM_CDR(v_2318302_25);
+Obj v_2318304_25 = PRIM_CDR(v_2318303_25);
+Obj v_2318305_25 = PRIM_EQ(Nil, v_2318304_25);
+if (True == v_2318305_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun39, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_b);
+saveCont(co, clofun46, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316820_25);
+coraCall0(co, v_2317470_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316820_25);
+coraCall0(co, v_2317470_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316820_25);
+coraCall0(co, v_2317470_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316820_25);
+coraCall0(co, v_2317470_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316820_25);
+coraCall0(co, v_2317470_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316820_25);
+coraCall0(co, v_2317470_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317459_25= co->res;
-Obj v_2317456_25 = R[1];
+Obj v_2318309_25= co->res;
+Obj v_2318306_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_2317456_25, v_2317459_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318306_25, v_2318309_25);
 return;
 }
 case 2:
 {
-Obj v_2317457_25= co->res;
+Obj v_2318307_25= co->res;
 Obj v_a = R[1];
-Obj v_2317456_25 = R[2];
-Obj v_2317458_25 = makeCons(co->gc, v_a, Nil);
-R[1] = v_2317456_25;
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317457_25, v_2317458_25);
+Obj v_2318306_25 = R[2];
+Obj v_2318308_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2318306_25;
+saveCont(co, clofun46, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318307_25, v_2318308_25);
 return;
 }
 case 3:
 {
-Obj v_2317456_25= co->res;
+Obj v_2318306_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
 R[1] = v_a;
-R[2] = v_2317456_25;
-saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_c);
+R[2] = v_2318306_25;
+saveCont(co, clofun46, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_c);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316821_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v_2317420_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317420_25) {
-Obj v_2317421_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317422_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317421_25);
-if (True == v_2317422_25) {
-Obj v_2317423_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317424_25 = PRIM_ISCONS(v_2317423_25);
-if (True == v_2317424_25) {
-Obj v_2317425_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317426_25 = PRIM_CAR(v_2317425_25);
-Obj v_lam = v_2317426_25;
-Obj v_2317427_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317428_25 = PRIM_CDR(v_2317427_25);
-Obj v_more = v_2317428_25;
-Obj v_2317429_25 = makeCons(co->gc, v_lam, v_more);
+Obj v_2317471_25 = makeNative(co->gc, 1, clofun44, 0, 1, closureRef(R[0], 0));
+Obj v_2318270_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318270_25) {
+Obj v_2318271_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318272_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318271_25);
+if (True == v_2318272_25) {
+Obj v_2318273_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318274_25 = PRIM_ISCONS(v_2318273_25);
+if (True == v_2318274_25) {
+Obj v_2318275_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318276_25 = PRIM_CAR(v_2318275_25);
+Obj v_lam = v_2318276_25;
+Obj v_2318277_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318278_25 = PRIM_CDR(v_2318277_25);
+Obj v_more = v_2318278_25;
+Obj v_2318279_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_2317429_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318279_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316821_25);
+coraCall0(co, v_2317471_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316821_25);
+coraCall0(co, v_2317471_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316821_25);
+coraCall0(co, v_2317471_25);
 return;
 }
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316822_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v_2317410_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317410_25) {
-Obj v_2317411_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317412_25 = PRIM_EQ(getBinding(co, packageID, 73).name, v_2317411_25);
-if (True == v_2317412_25) {
-Obj v_2317413_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317414_25 = PRIM_ISCONS(v_2317413_25);
-if (True == v_2317414_25) {
-Obj v_2317415_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317416_25 = PRIM_CAR(v_2317415_25);
-Obj v_x = v_2317416_25;
-Obj v_2317417_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317418_25 = PRIM_CDR(v_2317417_25);
-Obj v_2317419_25 = PRIM_EQ(Nil, v_2317418_25);
-if (True == v_2317419_25) {
+Obj v_2317472_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v_2318260_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318260_25) {
+Obj v_2318261_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318262_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2318261_25);
+if (True == v_2318262_25) {
+Obj v_2318263_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318264_25 = PRIM_ISCONS(v_2318263_25);
+if (True == v_2318264_25) {
+Obj v_2318265_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318266_25 = PRIM_CAR(v_2318265_25);
+Obj v_x = v_2318266_25;
+Obj v_2318267_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318268_25 = PRIM_CDR(v_2318267_25);
+Obj v_2318269_25 = PRIM_EQ(Nil, v_2318268_25);
+if (True == v_2318269_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2317472_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2317472_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2317472_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316822_25);
+coraCall0(co, v_2317472_25);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316823_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v_2317390_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317390_25) {
-Obj v_2317391_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317392_25 = PRIM_EQ(getBinding(co, packageID, 74).name, v_2317391_25);
-if (True == v_2317392_25) {
-Obj v_2317393_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317394_25 = PRIM_ISCONS(v_2317393_25);
-if (True == v_2317394_25) {
-Obj v_2317395_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317396_25 = PRIM_CAR(v_2317395_25);
-Obj v_exp = v_2317396_25;
-Obj v_2317397_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317398_25 = PRIM_CDR(v_2317397_25);
-Obj v_2317399_25 = PRIM_ISCONS(v_2317398_25);
-if (True == v_2317399_25) {
-Obj v_2317400_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317401_25 = PRIM_CDR(v_2317400_25);
-Obj v_2317402_25 = PRIM_CAR(v_2317401_25);
-Obj v_cont = v_2317402_25;
-Obj v_2317403_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317404_25 = PRIM_CDR(v_2317403_25);
-Obj v_2317405_25 = PRIM_CDR(v_2317404_25);
-Obj v_2317406_25 = PRIM_EQ(Nil, v_2317405_25);
-if (True == v_2317406_25) {
-Obj v_2317407_25 = makeCons(co->gc, v_cont, Nil);
-Obj v_2317408_25 = makeCons(co->gc, v_exp, v_2317407_25);
-saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317408_25);
+Obj v_2317473_25 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v_2318240_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318240_25) {
+Obj v_2318241_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318242_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318241_25);
+if (True == v_2318242_25) {
+Obj v_2318243_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318244_25 = PRIM_ISCONS(v_2318243_25);
+if (True == v_2318244_25) {
+Obj v_2318245_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318246_25 = PRIM_CAR(v_2318245_25);
+Obj v_exp = v_2318246_25;
+Obj v_2318247_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318248_25 = PRIM_CDR(v_2318247_25);
+Obj v_2318249_25 = PRIM_ISCONS(v_2318248_25);
+if (True == v_2318249_25) {
+Obj v_2318250_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318251_25 = PRIM_CDR(v_2318250_25);
+Obj v_2318252_25 = PRIM_CAR(v_2318251_25);
+Obj v_cont = v_2318252_25;
+Obj v_2318253_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318254_25 = PRIM_CDR(v_2318253_25);
+Obj v_2318255_25 = PRIM_CDR(v_2318254_25);
+Obj v_2318256_25 = PRIM_EQ(Nil, v_2318255_25);
+if (True == v_2318256_25) {
+Obj v_2318257_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2318258_25 = makeCons(co->gc, v_exp, v_2318257_25);
+saveCont(co, clofun43, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318258_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2317473_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2317473_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2317473_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2317473_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316823_25);
+coraCall0(co, v_2317473_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317409_25= co->res;
+Obj v_2318259_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317409_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318259_25);
 return;
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316824_25 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v_2317380_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317380_25) {
-Obj v_2317381_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317382_25 = PRIM_EQ(getBinding(co, packageID, 75).name, v_2317381_25);
-if (True == v_2317382_25) {
-Obj v_2317383_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317384_25 = PRIM_ISCONS(v_2317383_25);
-if (True == v_2317384_25) {
-Obj v_2317385_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317386_25 = PRIM_CAR(v_2317385_25);
-Obj v_exp = v_2317386_25;
-Obj v_2317387_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317388_25 = PRIM_CDR(v_2317387_25);
-Obj v_2317389_25 = PRIM_EQ(Nil, v_2317388_25);
-if (True == v_2317389_25) {
+Obj v_2317474_25 = makeNative(co->gc, 2, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v_2318230_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318230_25) {
+Obj v_2318231_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318232_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318231_25);
+if (True == v_2318232_25) {
+Obj v_2318233_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318234_25 = PRIM_ISCONS(v_2318233_25);
+if (True == v_2318234_25) {
+Obj v_2318235_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318236_25 = PRIM_CAR(v_2318235_25);
+Obj v_exp = v_2318236_25;
+Obj v_2318237_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318238_25 = PRIM_CDR(v_2318237_25);
+Obj v_2318239_25 = PRIM_EQ(Nil, v_2318238_25);
+if (True == v_2318239_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2317474_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2317474_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2317474_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316824_25);
+coraCall0(co, v_2317474_25);
 return;
 }
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316825_25 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v_2317362_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317362_25) {
-Obj v_2317363_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317364_25 = PRIM_EQ(getBinding(co, packageID, 76).name, v_2317363_25);
-if (True == v_2317364_25) {
-Obj v_2317365_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317366_25 = PRIM_ISCONS(v_2317365_25);
-if (True == v_2317366_25) {
-Obj v_2317367_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317368_25 = PRIM_CAR(v_2317367_25);
-Obj v_arg = v_2317368_25;
-Obj v_2317369_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317370_25 = PRIM_CDR(v_2317369_25);
-Obj v_2317371_25 = PRIM_ISCONS(v_2317370_25);
-if (True == v_2317371_25) {
-Obj v_2317372_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317373_25 = PRIM_CDR(v_2317372_25);
-Obj v_2317374_25 = PRIM_CAR(v_2317373_25);
-Obj v_body = v_2317374_25;
-Obj v_2317375_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317376_25 = PRIM_CDR(v_2317375_25);
-Obj v_2317377_25 = PRIM_CDR(v_2317376_25);
-Obj v_2317378_25 = PRIM_EQ(Nil, v_2317377_25);
-if (True == v_2317378_25) {
+Obj v_2317475_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v_2318212_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318212_25) {
+Obj v_2318213_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318214_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318213_25);
+if (True == v_2318214_25) {
+Obj v_2318215_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318216_25 = PRIM_ISCONS(v_2318215_25);
+if (True == v_2318216_25) {
+Obj v_2318217_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318218_25 = PRIM_CAR(v_2318217_25);
+Obj v_arg = v_2318218_25;
+Obj v_2318219_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318220_25 = PRIM_CDR(v_2318219_25);
+Obj v_2318221_25 = PRIM_ISCONS(v_2318220_25);
+if (True == v_2318221_25) {
+Obj v_2318222_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318223_25 = PRIM_CDR(v_2318222_25);
+Obj v_2318224_25 = PRIM_CAR(v_2318223_25);
+Obj v_body = v_2318224_25;
+Obj v_2318225_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318226_25 = PRIM_CDR(v_2318225_25);
+Obj v_2318227_25 = PRIM_CDR(v_2318226_25);
+Obj v_2318228_25 = PRIM_EQ(Nil, v_2318227_25);
+if (True == v_2318228_25) {
 R[1] = v_arg;
-saveCont(co, clofun34, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_body);
+saveCont(co, clofun41, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2317475_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2317475_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2317475_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2317475_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316825_25);
+coraCall0(co, v_2317475_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317379_25= co->res;
+Obj v_2318229_25= co->res;
 Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317379_25, v_arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318229_25, v_arg);
 return;
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317357_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317357_25) {
-Obj v_2317358_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2317358_25;
-Obj v_2317359_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317359_25;
-Obj v_2317360_25 = makeCons(co->gc, v_f, v_args);
-saveCont(co, clofun33, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 77)), v_2317360_25);
+Obj v_2318207_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318207_25) {
+Obj v_2318208_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318208_25;
+Obj v_2318209_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318209_25;
+Obj v_2318210_25 = makeCons(co->gc, v_f, v_args);
+saveCont(co, clofun40, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318210_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317361_25= co->res;
+Obj v_2318211_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 82)), Nil, v_2317361_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318211_25);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316806_25 = R[1];
-Obj v_2316807_25 = makeNative(co->gc, 1, clofun31, 0, 1, v_2316806_25);
-Obj v_2317343_25 = PRIM_ISCONS(v_2316806_25);
-if (True == v_2317343_25) {
-Obj v_2317344_25 = PRIM_CAR(v_2316806_25);
-Obj v_2317345_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2317344_25);
-if (True == v_2317345_25) {
-Obj v_2317346_25 = PRIM_CDR(v_2316806_25);
-Obj v_2317347_25 = PRIM_ISCONS(v_2317346_25);
-if (True == v_2317347_25) {
-Obj v_2317348_25 = PRIM_CDR(v_2316806_25);
-Obj v_2317349_25 = PRIM_CAR(v_2317348_25);
-Obj v_2317350_25 = PRIM_CDR(v_2316806_25);
-Obj v_2317351_25 = PRIM_CDR(v_2317350_25);
-Obj v_2317352_25 = PRIM_EQ(Nil, v_2317351_25);
-if (True == v_2317352_25) {
+Obj v_2317456_25 = R[1];
+Obj v_2317457_25 = makeNative(co->gc, 1, clofun38, 0, 1, v_2317456_25);
+Obj v_2318193_25 = PRIM_ISCONS(v_2317456_25);
+if (True == v_2318193_25) {
+Obj v_2318194_25 = PRIM_CAR(v_2317456_25);
+Obj v_2318195_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318194_25);
+if (True == v_2318195_25) {
+Obj v_2318196_25 = PRIM_CDR(v_2317456_25);
+Obj v_2318197_25 = PRIM_ISCONS(v_2318196_25);
+if (True == v_2318197_25) {
+Obj v_2318198_25 = PRIM_CDR(v_2317456_25);
+Obj v_2318199_25 = PRIM_CAR(v_2318198_25);
+Obj v_2318200_25 = PRIM_CDR(v_2317456_25);
+Obj v_2318201_25 = PRIM_CDR(v_2318200_25);
+Obj v_2318202_25 = PRIM_EQ(Nil, v_2318201_25);
+if (True == v_2318202_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316807_25);
+coraCall0(co, v_2317457_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316807_25);
+coraCall0(co, v_2317457_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316807_25);
+coraCall0(co, v_2317457_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316807_25);
+coraCall0(co, v_2317457_25);
 return;
 }
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316808_25 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v_2317333_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317333_25) {
-Obj v_2317334_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317335_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2317334_25);
-if (True == v_2317335_25) {
-Obj v_2317336_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317337_25 = PRIM_ISCONS(v_2317336_25);
-if (True == v_2317337_25) {
-Obj v_2317338_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317339_25 = PRIM_CAR(v_2317338_25);
-Obj v_2317340_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317341_25 = PRIM_CDR(v_2317340_25);
-Obj v_2317342_25 = PRIM_EQ(Nil, v_2317341_25);
-if (True == v_2317342_25) {
+Obj v_2317458_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2318183_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318183_25) {
+Obj v_2318184_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318185_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318184_25);
+if (True == v_2318185_25) {
+Obj v_2318186_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318187_25 = PRIM_ISCONS(v_2318186_25);
+if (True == v_2318187_25) {
+Obj v_2318188_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318189_25 = PRIM_CAR(v_2318188_25);
+Obj v_2318190_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318191_25 = PRIM_CDR(v_2318190_25);
+Obj v_2318192_25 = PRIM_EQ(Nil, v_2318191_25);
+if (True == v_2318192_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316808_25);
+coraCall0(co, v_2317458_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316808_25);
+coraCall0(co, v_2317458_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316808_25);
+coraCall0(co, v_2317458_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316808_25);
+coraCall0(co, v_2317458_25);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316809_25 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v_2317323_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317323_25) {
-Obj v_2317324_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317325_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2317324_25);
-if (True == v_2317325_25) {
-Obj v_2317326_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317327_25 = PRIM_ISCONS(v_2317326_25);
-if (True == v_2317327_25) {
-Obj v_2317328_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317329_25 = PRIM_CAR(v_2317328_25);
-Obj v_2317330_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317331_25 = PRIM_CDR(v_2317330_25);
-Obj v_2317332_25 = PRIM_EQ(Nil, v_2317331_25);
-if (True == v_2317332_25) {
+Obj v_2317459_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v_2318173_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318173_25) {
+Obj v_2318174_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318175_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318174_25);
+if (True == v_2318175_25) {
+Obj v_2318176_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318177_25 = PRIM_ISCONS(v_2318176_25);
+if (True == v_2318177_25) {
+Obj v_2318178_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318179_25 = PRIM_CAR(v_2318178_25);
+Obj v_2318180_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318181_25 = PRIM_CDR(v_2318180_25);
+Obj v_2318182_25 = PRIM_EQ(Nil, v_2318181_25);
+if (True == v_2318182_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316809_25);
+coraCall0(co, v_2317459_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316809_25);
+coraCall0(co, v_2317459_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316809_25);
+coraCall0(co, v_2317459_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316809_25);
+coraCall0(co, v_2317459_25);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316810_25 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v_2317313_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317313_25) {
-Obj v_2317314_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317315_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317314_25);
-if (True == v_2317315_25) {
-Obj v_2317316_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317317_25 = PRIM_ISCONS(v_2317316_25);
-if (True == v_2317317_25) {
-Obj v_2317318_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317319_25 = PRIM_CAR(v_2317318_25);
-Obj v_2317320_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317321_25 = PRIM_CDR(v_2317320_25);
-Obj v_2317322_25 = PRIM_EQ(Nil, v_2317321_25);
-if (True == v_2317322_25) {
+Obj v_2317460_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v_2318163_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318163_25) {
+Obj v_2318164_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318165_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318164_25);
+if (True == v_2318165_25) {
+Obj v_2318166_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318167_25 = PRIM_ISCONS(v_2318166_25);
+if (True == v_2318167_25) {
+Obj v_2318168_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318169_25 = PRIM_CAR(v_2318168_25);
+Obj v_2318170_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318171_25 = PRIM_CDR(v_2318170_25);
+Obj v_2318172_25 = PRIM_EQ(Nil, v_2318171_25);
+if (True == v_2318172_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316810_25);
+coraCall0(co, v_2317460_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316810_25);
+coraCall0(co, v_2317460_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316810_25);
+coraCall0(co, v_2317460_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316810_25);
+coraCall0(co, v_2317460_25);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316811_25 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
-Obj v_2317303_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317303_25) {
-Obj v_2317304_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317305_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2317304_25);
-if (True == v_2317305_25) {
-Obj v_2317306_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317307_25 = PRIM_ISCONS(v_2317306_25);
-if (True == v_2317307_25) {
-Obj v_2317308_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317309_25 = PRIM_CAR(v_2317308_25);
-Obj v_2317310_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317311_25 = PRIM_CDR(v_2317310_25);
-Obj v_2317312_25 = PRIM_EQ(Nil, v_2317311_25);
-if (True == v_2317312_25) {
+Obj v_2317461_25 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v_2318153_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318153_25) {
+Obj v_2318154_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318155_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318154_25);
+if (True == v_2318155_25) {
+Obj v_2318156_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318157_25 = PRIM_ISCONS(v_2318156_25);
+if (True == v_2318157_25) {
+Obj v_2318158_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318159_25 = PRIM_CAR(v_2318158_25);
+Obj v_2318160_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318161_25 = PRIM_CDR(v_2318160_25);
+Obj v_2318162_25 = PRIM_EQ(Nil, v_2318161_25);
+if (True == v_2318162_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316811_25);
+coraCall0(co, v_2317461_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316811_25);
+coraCall0(co, v_2317461_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316811_25);
+coraCall0(co, v_2317461_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316811_25);
+coraCall0(co, v_2317461_25);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316812_25 = makeNative(co->gc, 1, clofun26, 0, 0);
-Obj v_2317293_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317293_25) {
-Obj v_2317294_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317295_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317294_25);
-if (True == v_2317295_25) {
-Obj v_2317296_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317297_25 = PRIM_ISCONS(v_2317296_25);
-if (True == v_2317297_25) {
-Obj v_2317298_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317299_25 = PRIM_CAR(v_2317298_25);
-Obj v_label = v_2317299_25;
-Obj v_2317300_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317301_25 = PRIM_CDR(v_2317300_25);
-R[1] = v_2316812_25;
-saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_label);
+Obj v_2317462_25 = makeNative(co->gc, 1, clofun33, 0, 0);
+Obj v_2318143_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318143_25) {
+Obj v_2318144_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318145_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318144_25);
+if (True == v_2318145_25) {
+Obj v_2318146_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318147_25 = PRIM_ISCONS(v_2318146_25);
+if (True == v_2318147_25) {
+Obj v_2318148_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318149_25 = PRIM_CAR(v_2318148_25);
+Obj v_label = v_2318149_25;
+Obj v_2318150_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318151_25 = PRIM_CDR(v_2318150_25);
+R[1] = v_2317462_25;
+saveCont(co, clofun34, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2317462_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2317462_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2317462_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317302_25= co->res;
-Obj v_2316812_25 = R[1];
-if (True == v_2317302_25) {
+Obj v_2318152_25= co->res;
+Obj v_2317462_25 = R[1];
+if (True == v_2318152_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316812_25);
+coraCall0(co, v_2317462_25);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7569,232 +7585,233 @@ return;
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316801_25 = R[1];
-Obj v_2316802_25 = R[2];
-Obj v_2317282_25 = PRIM_EQ(Nil, v_2316801_25);
-if (True == v_2317282_25) {
+Obj v_2317451_25 = R[1];
+Obj v_2317452_25 = R[2];
+Obj v_2318132_25 = PRIM_EQ(Nil, v_2317451_25);
+if (True == v_2318132_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2316804_25 = makeNative(co->gc, 2, clofun24, 0, 2, v_2316801_25, v_2316802_25);
-Obj v_2317288_25 = PRIM_ISCONS(v_2316801_25);
-if (True == v_2317288_25) {
-Obj v_2317289_25 = PRIM_CAR(v_2316801_25);
-Obj v_x = v_2317289_25;
-Obj v_2317290_25 = PRIM_CDR(v_2316801_25);
-Obj v_y = v_2317290_25;
+Obj v_2317454_25 = makeNative(co->gc, 2, clofun31, 0, 2, v_2317451_25, v_2317452_25);
+Obj v_2318138_25 = PRIM_ISCONS(v_2317451_25);
+if (True == v_2318138_25) {
+Obj v_2318139_25 = PRIM_CAR(v_2317451_25);
+Obj v_x = v_2318139_25;
+Obj v_2318140_25 = PRIM_CDR(v_2317451_25);
+Obj v_y = v_2318140_25;
 R[1] = v_y;
-R[2] = v_2316802_25;
-R[3] = v_2316804_25;
-saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_x, v_2316802_25);
+R[2] = v_2317452_25;
+R[3] = v_2317454_25;
+saveCont(co, clofun32, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317452_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316804_25);
+coraCall0(co, v_2317454_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317291_25= co->res;
+Obj v_2318141_25= co->res;
 Obj v_y = R[1];
-Obj v_2316802_25 = R[2];
-Obj v_2316804_25 = R[3];
-if (True == v_2317291_25) {
+Obj v_2317452_25 = R[2];
+Obj v_2317454_25 = R[3];
+if (True == v_2318141_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, v_2316802_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2317452_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316804_25);
+coraCall0(co, v_2317454_25);
 return;
 }
 }
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317283_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317283_25) {
-Obj v_2317284_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317284_25;
-Obj v_2317285_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317285_25;
+Obj v_2318133_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318133_25) {
+Obj v_2318134_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318134_25;
+Obj v_2318135_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318135_25;
 R[1] = v_x;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_y, closureRef(R[0], 1));
+saveCont(co, clofun31, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317286_25= co->res;
+Obj v_2318136_25= co->res;
 Obj v_x = R[1];
-Obj v_2317287_25 = makeCons(co->gc, v_x, v_2317286_25);
-coraReturn(co, v_2317287_25);
+Obj v_2318137_25 = makeCons(co->gc, v_x, v_2318136_25);
+coraReturn(co, v_2318137_25);
 return;
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316796_25 = R[1];
-Obj v_2316797_25 = R[2];
-Obj v_2317271_25 = PRIM_EQ(Nil, v_2316796_25);
-if (True == v_2317271_25) {
-coraReturn(co, v_2316797_25);
+Obj v_2317446_25 = R[1];
+Obj v_2317447_25 = R[2];
+Obj v_2318121_25 = PRIM_EQ(Nil, v_2317446_25);
+if (True == v_2318121_25) {
+coraReturn(co, v_2317447_25);
 return;
 } else {
-Obj v_2316799_25 = makeNative(co->gc, 2, clofun22, 0, 2, v_2316796_25, v_2316797_25);
-Obj v_2317277_25 = PRIM_ISCONS(v_2316796_25);
-if (True == v_2317277_25) {
-Obj v_2317278_25 = PRIM_CAR(v_2316796_25);
-Obj v_x = v_2317278_25;
-Obj v_2317279_25 = PRIM_CDR(v_2316796_25);
-Obj v_y = v_2317279_25;
+Obj v_2317449_25 = makeNative(co->gc, 2, clofun29, 0, 2, v_2317446_25, v_2317447_25);
+Obj v_2318127_25 = PRIM_ISCONS(v_2317446_25);
+if (True == v_2318127_25) {
+Obj v_2318128_25 = PRIM_CAR(v_2317446_25);
+Obj v_x = v_2318128_25;
+Obj v_2318129_25 = PRIM_CDR(v_2317446_25);
+Obj v_y = v_2318129_25;
 R[1] = v_y;
-R[2] = v_2316797_25;
-R[3] = v_2316799_25;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v_x, v_2316797_25);
+R[2] = v_2317447_25;
+R[3] = v_2317449_25;
+saveCont(co, clofun30, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317447_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2317449_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317280_25= co->res;
+Obj v_2318130_25= co->res;
 Obj v_y = R[1];
-Obj v_2316797_25 = R[2];
-Obj v_2316799_25 = R[3];
-if (True == v_2317280_25) {
+Obj v_2317447_25 = R[2];
+Obj v_2317449_25 = R[3];
+if (True == v_2318130_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, v_2316797_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2317447_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316799_25);
+coraCall0(co, v_2317449_25);
 return;
 }
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317272_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317272_25) {
-Obj v_2317273_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317273_25;
-Obj v_2317274_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317274_25;
+Obj v_2318122_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318122_25) {
+Obj v_2318123_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318123_25;
+Obj v_2318124_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318124_25;
 R[1] = v_x;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_y, closureRef(R[0], 1));
+saveCont(co, clofun29, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2317275_25= co->res;
+Obj v_2318125_25= co->res;
 Obj v_x = R[1];
-Obj v_2317276_25 = makeCons(co->gc, v_x, v_2317275_25);
-coraReturn(co, v_2317276_25);
+Obj v_2318126_25 = makeCons(co->gc, v_x, v_2318125_25);
+coraReturn(co, v_2318126_25);
 return;
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316782_25 = R[1];
-Obj v_2316783_25 = R[2];
-Obj v_2316784_25 = R[3];
-Obj v_2316926_25 = makeNative(co->gc, 2, clofun20, 1, 3, v_2316782_25, v_2316784_25, v_2316783_25);
-R[1] = v_2316784_25;
-R[2] = v_2316926_25;
-saveCont(co, clofun21, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v_2316784_25);
+Obj v_2317431_25 = R[1];
+Obj v_2317432_25 = R[2];
+Obj v_2317433_25 = R[3];
+Obj v_2317434_25 = R[4];
+Obj v_2317598_25 = makeNative(co->gc, 2, clofun27, 1, 4, v_2317432_25, v_2317431_25, v_2317434_25, v_2317433_25);
+R[1] = v_2317434_25;
+R[2] = v_2317598_25;
+saveCont(co, clofun28, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317434_25);
 return;
 }
 case 1:
 {
-Obj v_2317269_25= co->res;
-Obj v_2316926_25 = R[1];
-if (True == v_2317269_25) {
+Obj v_2318119_25= co->res;
+Obj v_2317598_25 = R[1];
+if (True == v_2318119_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316926_25, True);
+coraCall1(co, v_2317598_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2316926_25, False);
+coraCall1(co, v_2317598_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317268_25= co->res;
-Obj v_2316784_25 = R[1];
-Obj v_2316926_25 = R[2];
-if (True == v_2317268_25) {
+Obj v_2318118_25= co->res;
+Obj v_2317434_25 = R[1];
+Obj v_2317598_25 = R[2];
+if (True == v_2318118_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316926_25, True);
+coraCall1(co, v_2317598_25, True);
 return;
 } else {
-R[1] = v_2316926_25;
-saveCont(co, clofun21, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_2316784_25);
+R[1] = v_2317598_25;
+saveCont(co, clofun28, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317434_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2317266_25= co->res;
-Obj v_2316784_25 = R[1];
-Obj v_2316926_25 = R[2];
-if (True == v_2317266_25) {
+Obj v_2318116_25= co->res;
+Obj v_2317434_25 = R[1];
+Obj v_2317598_25 = R[2];
+if (True == v_2318116_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316926_25, True);
+coraCall1(co, v_2317598_25, True);
 return;
 } else {
-Obj v_2317267_25 = primIsString(v_2316784_25);
-if (True == v_2317267_25) {
+Obj v_2318117_25 = primIsString(v_2317434_25);
+if (True == v_2318117_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2316926_25, True);
+coraCall1(co, v_2317598_25, True);
 return;
 } else {
-R[1] = v_2316784_25;
-R[2] = v_2316926_25;
-saveCont(co, clofun21, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2316784_25);
+R[1] = v_2317434_25;
+R[2] = v_2317598_25;
+saveCont(co, clofun28, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2317434_25);
 return;
 }
 }
@@ -7802,54 +7819,54 @@ return;
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316927_25 = R[1];
-if (True == v_2316927_25) {
-Obj v_2317080_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v_2317081_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317080_25);
-coraReturn(co, v_2317081_25);
+Obj v_2317599_25 = R[1];
+if (True == v_2317599_25) {
+Obj v_2317921_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2317922_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317921_25);
+coraReturn(co, v_2317922_25);
 return;
 } else {
-Obj v_2316786_25 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v_2317256_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317256_25) {
-Obj v_2317257_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2317258_25 = PRIM_EQ(getBinding(co, packageID, 85).name, v_2317257_25);
-if (True == v_2317258_25) {
-Obj v_2317259_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317260_25 = PRIM_ISCONS(v_2317259_25);
-if (True == v_2317260_25) {
-Obj v_2317261_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317262_25 = PRIM_CAR(v_2317261_25);
-Obj v_x = v_2317262_25;
-Obj v_2317263_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2317264_25 = PRIM_CDR(v_2317263_25);
-Obj v_2317265_25 = PRIM_EQ(Nil, v_2317264_25);
-if (True == v_2317265_25) {
+Obj v_2317436_25 = makeNative(co->gc, 4, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
+Obj v_2318106_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318106_25) {
+Obj v_2318107_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318108_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318107_25);
+if (True == v_2318108_25) {
+Obj v_2318109_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318110_25 = PRIM_ISCONS(v_2318109_25);
+if (True == v_2318110_25) {
+Obj v_2318111_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318112_25 = PRIM_CAR(v_2318111_25);
+Obj v_x = v_2318112_25;
+Obj v_2318113_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318114_25 = PRIM_CDR(v_2318113_25);
+Obj v_2318115_25 = PRIM_EQ(Nil, v_2318114_25);
+if (True == v_2318115_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316786_25);
+coraCall0(co, v_2317436_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316786_25);
+coraCall0(co, v_2317436_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316786_25);
+coraCall0(co, v_2317436_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316786_25);
+coraCall0(co, v_2317436_25);
 return;
 }
 }
@@ -7857,746 +7874,1029 @@ return;
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317082_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2317082_25) {
-saveCont(co, clofun19, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj v_2316788_25 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317234_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317234_25) {
-Obj v_2317235_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317236_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317235_25);
-if (True == v_2317236_25) {
-Obj v_2317237_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317238_25 = PRIM_ISCONS(v_2317237_25);
-if (True == v_2317238_25) {
-Obj v_2317239_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317240_25 = PRIM_CAR(v_2317239_25);
-Obj v_args = v_2317240_25;
-Obj v_2317241_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317242_25 = PRIM_CDR(v_2317241_25);
-Obj v_2317243_25 = PRIM_ISCONS(v_2317242_25);
-if (True == v_2317243_25) {
-Obj v_2317244_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317245_25 = PRIM_CDR(v_2317244_25);
-Obj v_2317246_25 = PRIM_CAR(v_2317245_25);
-Obj v_body = v_2317246_25;
-Obj v_2317247_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317248_25 = PRIM_CDR(v_2317247_25);
-Obj v_2317249_25 = PRIM_CDR(v_2317248_25);
-Obj v_2317250_25 = PRIM_EQ(Nil, v_2317249_25);
-if (True == v_2317250_25) {
-R[1] = v_body;
-R[2] = v_args;
-saveCont(co, clofun19, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_args, closureRef(R[0], 1));
+Obj v_2317923_25 = primIsSymbol(closureRef(R[0], 1));
+if (True == v_2317923_25) {
+saveCont(co, clofun26, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 1), closureRef(R[0], 2));
+return;
+} else {
+Obj v_2317438_25 = makeNative(co->gc, 1, clofun25, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
+Obj v_2318081_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318081_25) {
+Obj v_2318082_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318083_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318082_25);
+if (True == v_2318083_25) {
+Obj v_2318084_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318085_25 = PRIM_ISCONS(v_2318084_25);
+if (True == v_2318085_25) {
+Obj v_2318086_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318087_25 = PRIM_CAR(v_2318086_25);
+Obj v_args = v_2318087_25;
+Obj v_2318088_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318089_25 = PRIM_CDR(v_2318088_25);
+Obj v_2318090_25 = PRIM_ISCONS(v_2318089_25);
+if (True == v_2318090_25) {
+Obj v_2318091_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318092_25 = PRIM_CDR(v_2318091_25);
+Obj v_2318093_25 = PRIM_CAR(v_2318092_25);
+Obj v_body = v_2318093_25;
+Obj v_2318094_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318095_25 = PRIM_CDR(v_2318094_25);
+Obj v_2318096_25 = PRIM_CDR(v_2318095_25);
+Obj v_2318097_25 = PRIM_EQ(Nil, v_2318096_25);
+if (True == v_2318097_25) {
+Obj v_2318098_25 = primGenSym(co);
+Obj v_used1 = v_2318098_25;
+R[1] = v_args;
+R[2] = v_used1;
+R[3] = v_body;
+saveCont(co, clofun26, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 102)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316788_25);
+coraCall0(co, v_2317438_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316788_25);
+coraCall0(co, v_2317438_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316788_25);
+coraCall0(co, v_2317438_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316788_25);
+coraCall0(co, v_2317438_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316788_25);
+coraCall0(co, v_2317438_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317084_25= co->res;
-Obj v_2317085_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2317086_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317085_25);
-coraReturn(co, v_2317086_25);
+Obj v_2317926_25= co->res;
+Obj v_2317927_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2317928_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2317927_25);
+coraReturn(co, v_2317928_25);
 return;
 }
 case 2:
 {
-Obj v_2317083_25= co->res;
-if (True == v_2317083_25) {
-coraReturn(co, closureRef(R[0], 0));
+Obj v_2317925_25= co->res;
+Obj v_find = R[1];
+if (True == v_2317925_25) {
+saveCont(co, clofun26, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), closureRef(R[0], 1), closureRef(R[0], 3));
 return;
 } else {
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v_2317929_25 = PRIM_CDR(v_find);
+coraReturn(co, v_2317929_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2317252_25= co->res;
-Obj v_args = R[1];
-Obj v_2317253_25 = makeCons(co->gc, v_2317252_25, Nil);
-Obj v_2317254_25 = makeCons(co->gc, v_args, v_2317253_25);
-Obj v_2317255_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317254_25);
-coraReturn(co, v_2317255_25);
+Obj v_2317924_25= co->res;
+Obj v_find = v_2317924_25;
+R[1] = v_find;
+saveCont(co, clofun26, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
 return;
 }
 case 4:
 {
-Obj v_2317251_25= co->res;
-Obj v_body = R[1];
-Obj v_args = R[2];
-R[1] = v_args;
-saveCont(co, clofun19, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), v_2317251_25, closureRef(R[0], 2), v_body);
+Obj v_2318102_25= co->res;
+Obj v_args1 = R[1];
+Obj v_2318103_25 = makeCons(co->gc, v_2318102_25, Nil);
+Obj v_2318104_25 = makeCons(co->gc, v_args1, v_2318103_25);
+Obj v_2318105_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318104_25);
+coraReturn(co, v_2318105_25);
+return;
+}
+case 5:
+{
+Obj v_2318101_25= co->res;
+Obj v_used1 = R[1];
+Obj v_body = R[2];
+Obj v_args1 = R[3];
+R[1] = v_args1;
+saveCont(co, clofun26, 4, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318101_25, v_used1, closureRef(R[0], 3), v_body);
+return;
+}
+case 6:
+{
+Obj v_2318099_25= co->res;
+Obj v_args = R[1];
+Obj v_used1 = R[2];
+Obj v_body = R[3];
+Obj v_args1 = v_2318099_25;
+Obj v_2318100_25 = primSet(co, v_used1, v_args);
+R[1] = v_used1;
+R[2] = v_body;
+R[3] = v_args1;
+saveCont(co, clofun26, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 90)), v_args, v_args1, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316789_25 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317202_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317202_25) {
-Obj v_2317203_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317204_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317203_25);
-if (True == v_2317204_25) {
-Obj v_2317205_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317206_25 = PRIM_ISCONS(v_2317205_25);
-if (True == v_2317206_25) {
-Obj v_2317207_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317208_25 = PRIM_CAR(v_2317207_25);
-Obj v_2317209_25 = PRIM_ISCONS(v_2317208_25);
-if (True == v_2317209_25) {
-Obj v_2317210_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317211_25 = PRIM_CAR(v_2317210_25);
-Obj v_2317212_25 = PRIM_CAR(v_2317211_25);
-Obj v_2317213_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317212_25);
-if (True == v_2317213_25) {
-Obj v_2317214_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317215_25 = PRIM_CAR(v_2317214_25);
-Obj v_2317216_25 = PRIM_CDR(v_2317215_25);
-Obj v_exp1 = v_2317216_25;
-Obj v_2317217_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317218_25 = PRIM_CDR(v_2317217_25);
-Obj v_exp2 = v_2317218_25;
-Obj v_2317219_25 = primGenSym(co);
-Obj v_f = v_2317219_25;
-Obj v_2317220_25 = primGenSym(co);
-Obj v_v = v_2317220_25;
-Obj v_2317221_25 = makeCons(co->gc, v_v, Nil);
-Obj v_2317222_25 = makeCons(co->gc, v_v, v_exp2);
-Obj v_2317223_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317222_25);
-Obj v_2317224_25 = makeCons(co->gc, v_2317223_25, Nil);
-Obj v_2317225_25 = makeCons(co->gc, v_2317221_25, v_2317224_25);
-Obj v_2317226_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317225_25);
-Obj v_2317227_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp1);
-Obj v_2317228_25 = makeCons(co->gc, v_2317227_25, Nil);
-Obj v_2317229_25 = makeCons(co->gc, v_f, v_2317228_25);
-Obj v_2317230_25 = makeCons(co->gc, v_2317229_25, Nil);
-Obj v_2317231_25 = makeCons(co->gc, v_2317226_25, v_2317230_25);
-Obj v_2317232_25 = makeCons(co->gc, v_f, v_2317231_25);
-Obj v_2317233_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317232_25);
+Obj v_2317439_25 = makeNative(co->gc, 2, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318049_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318049_25) {
+Obj v_2318050_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318051_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318050_25);
+if (True == v_2318051_25) {
+Obj v_2318052_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318053_25 = PRIM_ISCONS(v_2318052_25);
+if (True == v_2318053_25) {
+Obj v_2318054_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318055_25 = PRIM_CAR(v_2318054_25);
+Obj v_2318056_25 = PRIM_ISCONS(v_2318055_25);
+if (True == v_2318056_25) {
+Obj v_2318057_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318058_25 = PRIM_CAR(v_2318057_25);
+Obj v_2318059_25 = PRIM_CAR(v_2318058_25);
+Obj v_2318060_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318059_25);
+if (True == v_2318060_25) {
+Obj v_2318061_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318062_25 = PRIM_CAR(v_2318061_25);
+Obj v_2318063_25 = PRIM_CDR(v_2318062_25);
+Obj v_exp1 = v_2318063_25;
+Obj v_2318064_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318065_25 = PRIM_CDR(v_2318064_25);
+Obj v_exp2 = v_2318065_25;
+Obj v_2318066_25 = primGenSym(co);
+Obj v_f = v_2318066_25;
+Obj v_2318067_25 = primGenSym(co);
+Obj v_v = v_2318067_25;
+Obj v_2318068_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2318069_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2318070_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318069_25);
+Obj v_2318071_25 = makeCons(co->gc, v_2318070_25, Nil);
+Obj v_2318072_25 = makeCons(co->gc, v_2318068_25, v_2318071_25);
+Obj v_2318073_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318072_25);
+Obj v_2318074_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp1);
+Obj v_2318075_25 = makeCons(co->gc, v_2318074_25, Nil);
+Obj v_2318076_25 = makeCons(co->gc, v_f, v_2318075_25);
+Obj v_2318077_25 = makeCons(co->gc, v_2318076_25, Nil);
+Obj v_2318078_25 = makeCons(co->gc, v_2318073_25, v_2318077_25);
+Obj v_2318079_25 = makeCons(co->gc, v_f, v_2318078_25);
+Obj v_2318080_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318079_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317233_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318080_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316789_25);
+coraCall0(co, v_2317439_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316789_25);
+coraCall0(co, v_2317439_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316789_25);
+coraCall0(co, v_2317439_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316789_25);
+coraCall0(co, v_2317439_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316789_25);
+coraCall0(co, v_2317439_25);
 return;
 }
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316790_25 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317195_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317195_25) {
-Obj v_2317196_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317197_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317196_25);
-if (True == v_2317197_25) {
-Obj v_2317198_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317198_25;
+Obj v_2317440_25 = makeNative(co->gc, 2, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318042_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318042_25) {
+Obj v_2318043_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318044_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318043_25);
+if (True == v_2318044_25) {
+Obj v_2318045_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318045_25;
 R[1] = v_args;
-saveCont(co, clofun17, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2));
+saveCont(co, clofun24, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2317440_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316790_25);
+coraCall0(co, v_2317440_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317200_25= co->res;
-Obj v_2317201_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_2317200_25);
-coraReturn(co, v_2317201_25);
+Obj v_2318047_25= co->res;
+Obj v_2318048_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318047_25);
+coraReturn(co, v_2318048_25);
 return;
 }
 case 2:
 {
-Obj v_2317199_25= co->res;
+Obj v_2318046_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317199_25, v_args);
+saveCont(co, clofun24, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318046_25, v_args);
 return;
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316791_25 = makeNative(co->gc, 3, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317173_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317173_25) {
-Obj v_2317174_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317175_25 = PRIM_EQ(getBinding(co, packageID, 86).name, v_2317174_25);
-if (True == v_2317175_25) {
-Obj v_2317176_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317177_25 = PRIM_ISCONS(v_2317176_25);
-if (True == v_2317177_25) {
-Obj v_2317178_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317179_25 = PRIM_CAR(v_2317178_25);
-Obj v_x = v_2317179_25;
-Obj v_2317180_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317181_25 = PRIM_CDR(v_2317180_25);
-Obj v_2317182_25 = PRIM_ISCONS(v_2317181_25);
-if (True == v_2317182_25) {
-Obj v_2317183_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317184_25 = PRIM_CDR(v_2317183_25);
-Obj v_2317185_25 = PRIM_CAR(v_2317184_25);
-Obj v_y = v_2317185_25;
-Obj v_2317186_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317187_25 = PRIM_CDR(v_2317186_25);
-Obj v_2317188_25 = PRIM_CDR(v_2317187_25);
-Obj v_2317189_25 = PRIM_EQ(Nil, v_2317188_25);
-if (True == v_2317189_25) {
+Obj v_2317441_25 = makeNative(co->gc, 4, clofun22, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318020_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318020_25) {
+Obj v_2318021_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318022_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318021_25);
+if (True == v_2318022_25) {
+Obj v_2318023_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318024_25 = PRIM_ISCONS(v_2318023_25);
+if (True == v_2318024_25) {
+Obj v_2318025_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318026_25 = PRIM_CAR(v_2318025_25);
+Obj v_x = v_2318026_25;
+Obj v_2318027_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318028_25 = PRIM_CDR(v_2318027_25);
+Obj v_2318029_25 = PRIM_ISCONS(v_2318028_25);
+if (True == v_2318029_25) {
+Obj v_2318030_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318031_25 = PRIM_CDR(v_2318030_25);
+Obj v_2318032_25 = PRIM_CAR(v_2318031_25);
+Obj v_y = v_2318032_25;
+Obj v_2318033_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318034_25 = PRIM_CDR(v_2318033_25);
+Obj v_2318035_25 = PRIM_CDR(v_2318034_25);
+Obj v_2318036_25 = PRIM_EQ(Nil, v_2318035_25);
+if (True == v_2318036_25) {
 R[1] = v_y;
-saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_x);
+saveCont(co, clofun23, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316791_25);
+coraCall0(co, v_2317441_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316791_25);
+coraCall0(co, v_2317441_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316791_25);
+coraCall0(co, v_2317441_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316791_25);
+coraCall0(co, v_2317441_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316791_25);
+coraCall0(co, v_2317441_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317191_25= co->res;
-Obj v_2317190_25 = R[1];
-Obj v_2317192_25 = makeCons(co->gc, v_2317191_25, Nil);
-Obj v_2317193_25 = makeCons(co->gc, v_2317190_25, v_2317192_25);
-Obj v_2317194_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2317193_25);
-coraReturn(co, v_2317194_25);
+Obj v_2318038_25= co->res;
+Obj v_2318037_25 = R[1];
+Obj v_2318039_25 = makeCons(co->gc, v_2318038_25, Nil);
+Obj v_2318040_25 = makeCons(co->gc, v_2318037_25, v_2318039_25);
+Obj v_2318041_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318040_25);
+coraReturn(co, v_2318041_25);
 return;
 }
 case 2:
 {
-Obj v_2317190_25= co->res;
+Obj v_2318037_25= co->res;
 Obj v_y = R[1];
-R[1] = v_2317190_25;
-saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_y);
+R[1] = v_2318037_25;
+saveCont(co, clofun23, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_y);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316792_25 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317140_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317140_25) {
-Obj v_2317141_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317142_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2317141_25);
-if (True == v_2317142_25) {
-Obj v_2317143_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317144_25 = PRIM_ISCONS(v_2317143_25);
-if (True == v_2317144_25) {
-Obj v_2317145_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317146_25 = PRIM_CAR(v_2317145_25);
-Obj v_a = v_2317146_25;
-Obj v_2317147_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317148_25 = PRIM_CDR(v_2317147_25);
-Obj v_2317149_25 = PRIM_ISCONS(v_2317148_25);
-if (True == v_2317149_25) {
-Obj v_2317150_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317151_25 = PRIM_CDR(v_2317150_25);
-Obj v_2317152_25 = PRIM_CAR(v_2317151_25);
-Obj v_b = v_2317152_25;
-Obj v_2317153_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317154_25 = PRIM_CDR(v_2317153_25);
-Obj v_2317155_25 = PRIM_CDR(v_2317154_25);
-Obj v_2317156_25 = PRIM_ISCONS(v_2317155_25);
-if (True == v_2317156_25) {
-Obj v_2317157_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317158_25 = PRIM_CDR(v_2317157_25);
-Obj v_2317159_25 = PRIM_CDR(v_2317158_25);
-Obj v_2317160_25 = PRIM_CAR(v_2317159_25);
-Obj v_c = v_2317160_25;
-Obj v_2317161_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317162_25 = PRIM_CDR(v_2317161_25);
-Obj v_2317163_25 = PRIM_CDR(v_2317162_25);
-Obj v_2317164_25 = PRIM_CDR(v_2317163_25);
-Obj v_2317165_25 = PRIM_EQ(Nil, v_2317164_25);
-if (True == v_2317165_25) {
-R[1] = v_c;
-R[2] = v_a;
-saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_b);
+Obj v_2317442_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2317985_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317985_25) {
+Obj v_2317986_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317987_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317986_25);
+if (True == v_2317987_25) {
+Obj v_2317988_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317989_25 = PRIM_ISCONS(v_2317988_25);
+if (True == v_2317989_25) {
+Obj v_2317990_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317991_25 = PRIM_CAR(v_2317990_25);
+Obj v_a = v_2317991_25;
+Obj v_2317992_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317993_25 = PRIM_CDR(v_2317992_25);
+Obj v_2317994_25 = PRIM_ISCONS(v_2317993_25);
+if (True == v_2317994_25) {
+Obj v_2317995_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317996_25 = PRIM_CDR(v_2317995_25);
+Obj v_2317997_25 = PRIM_CAR(v_2317996_25);
+Obj v_b = v_2317997_25;
+Obj v_2317998_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317999_25 = PRIM_CDR(v_2317998_25);
+Obj v_2318000_25 = PRIM_CDR(v_2317999_25);
+Obj v_2318001_25 = PRIM_ISCONS(v_2318000_25);
+if (True == v_2318001_25) {
+Obj v_2318002_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318003_25 = PRIM_CDR(v_2318002_25);
+Obj v_2318004_25 = PRIM_CDR(v_2318003_25);
+Obj v_2318005_25 = PRIM_CAR(v_2318004_25);
+Obj v_c = v_2318005_25;
+Obj v_2318006_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318007_25 = PRIM_CDR(v_2318006_25);
+Obj v_2318008_25 = PRIM_CDR(v_2318007_25);
+Obj v_2318009_25 = PRIM_CDR(v_2318008_25);
+Obj v_2318010_25 = PRIM_EQ(Nil, v_2318009_25);
+if (True == v_2318010_25) {
+R[1] = v_a;
+R[2] = v_c;
+saveCont(co, clofun22, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316792_25);
+coraCall0(co, v_2317442_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316792_25);
+coraCall0(co, v_2317442_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316792_25);
+coraCall0(co, v_2317442_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316792_25);
+coraCall0(co, v_2317442_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316792_25);
+coraCall0(co, v_2317442_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316792_25);
+coraCall0(co, v_2317442_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317168_25= co->res;
-Obj v_2317166_25 = R[1];
-Obj v_a = R[2];
-Obj v_2317169_25 = makeCons(co->gc, v_2317168_25, Nil);
-Obj v_2317170_25 = makeCons(co->gc, v_2317166_25, v_2317169_25);
-Obj v_2317171_25 = makeCons(co->gc, v_a, v_2317170_25);
-Obj v_2317172_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317171_25);
-coraReturn(co, v_2317172_25);
+Obj v_2318015_25= co->res;
+Obj v_b1 = R[1];
+Obj v_a1 = R[2];
+Obj v_2318016_25 = makeCons(co->gc, v_2318015_25, Nil);
+Obj v_2318017_25 = makeCons(co->gc, v_b1, v_2318016_25);
+Obj v_2318018_25 = makeCons(co->gc, v_a1, v_2318017_25);
+Obj v_2318019_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318018_25);
+coraReturn(co, v_2318019_25);
 return;
 }
 case 2:
 {
-Obj v_2317166_25= co->res;
-Obj v_c = R[1];
-Obj v_a = R[2];
-Obj v_2317167_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2317166_25;
-R[2] = v_a;
-saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), v_2317167_25, closureRef(R[0], 2), v_c);
+Obj v_2318012_25= co->res;
+Obj v_a = R[1];
+Obj v_c = R[2];
+Obj v_b1 = R[3];
+Obj v_a1 = v_2318012_25;
+Obj v_2318013_25 = makeCons(co->gc, v_a, v_a1);
+Obj v_2318014_25 = makeCons(co->gc, v_2318013_25, closureRef(R[0], 1));
+R[1] = v_b1;
+R[2] = v_a1;
+saveCont(co, clofun22, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318014_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+return;
+}
+case 3:
+{
+Obj v_2318011_25= co->res;
+Obj v_a = R[1];
+Obj v_c = R[2];
+Obj v_b1 = v_2318011_25;
+R[1] = v_a;
+R[2] = v_c;
+R[3] = v_b1;
+saveCont(co, clofun22, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 89)), v_a, closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316793_25 = makeNative(co->gc, 4, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2317108_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317108_25) {
-Obj v_2317109_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317110_25 = PRIM_ISCONS(v_2317109_25);
-if (True == v_2317110_25) {
-Obj v_2317111_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317112_25 = PRIM_CAR(v_2317111_25);
-Obj v_2317113_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2317112_25);
-if (True == v_2317113_25) {
-Obj v_2317114_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317115_25 = PRIM_CDR(v_2317114_25);
-Obj v_exp1 = v_2317115_25;
-Obj v_2317116_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317117_25 = PRIM_ISCONS(v_2317116_25);
-if (True == v_2317117_25) {
-Obj v_2317118_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317119_25 = PRIM_CAR(v_2317118_25);
-Obj v_2317120_25 = PRIM_ISCONS(v_2317119_25);
-if (True == v_2317120_25) {
-Obj v_2317121_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317122_25 = PRIM_CAR(v_2317121_25);
-Obj v_2317123_25 = PRIM_CAR(v_2317122_25);
-Obj v_2317124_25 = PRIM_EQ(getBinding(co, packageID, 88).name, v_2317123_25);
-if (True == v_2317124_25) {
-Obj v_2317125_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317126_25 = PRIM_CAR(v_2317125_25);
-Obj v_2317127_25 = PRIM_CDR(v_2317126_25);
-Obj v_exp2 = v_2317127_25;
-Obj v_2317128_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317129_25 = PRIM_CDR(v_2317128_25);
-Obj v_2317130_25 = PRIM_EQ(Nil, v_2317129_25);
-if (True == v_2317130_25) {
-Obj v_2317131_25 = primGenSym(co);
-Obj v_f = v_2317131_25;
-Obj v_2317132_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_exp1);
-Obj v_2317133_25 = makeCons(co->gc, getBinding(co, packageID, 88).name, v_exp2);
-Obj v_2317134_25 = makeCons(co->gc, v_2317133_25, Nil);
-Obj v_2317135_25 = makeCons(co->gc, v_f, v_2317134_25);
-Obj v_2317136_25 = makeCons(co->gc, v_2317135_25, Nil);
-Obj v_2317137_25 = makeCons(co->gc, v_2317132_25, v_2317136_25);
-Obj v_2317138_25 = makeCons(co->gc, v_f, v_2317137_25);
-Obj v_2317139_25 = makeCons(co->gc, getBinding(co, packageID, 87).name, v_2317138_25);
+Obj v_2317443_25 = makeNative(co->gc, 3, clofun20, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
+Obj v_2317953_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317953_25) {
+Obj v_2317954_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317955_25 = PRIM_ISCONS(v_2317954_25);
+if (True == v_2317955_25) {
+Obj v_2317956_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317957_25 = PRIM_CAR(v_2317956_25);
+Obj v_2317958_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2317957_25);
+if (True == v_2317958_25) {
+Obj v_2317959_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317960_25 = PRIM_CDR(v_2317959_25);
+Obj v_exp1 = v_2317960_25;
+Obj v_2317961_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317962_25 = PRIM_ISCONS(v_2317961_25);
+if (True == v_2317962_25) {
+Obj v_2317963_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317964_25 = PRIM_CAR(v_2317963_25);
+Obj v_2317965_25 = PRIM_ISCONS(v_2317964_25);
+if (True == v_2317965_25) {
+Obj v_2317966_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317967_25 = PRIM_CAR(v_2317966_25);
+Obj v_2317968_25 = PRIM_CAR(v_2317967_25);
+Obj v_2317969_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2317968_25);
+if (True == v_2317969_25) {
+Obj v_2317970_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317971_25 = PRIM_CAR(v_2317970_25);
+Obj v_2317972_25 = PRIM_CDR(v_2317971_25);
+Obj v_exp2 = v_2317972_25;
+Obj v_2317973_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2317974_25 = PRIM_CDR(v_2317973_25);
+Obj v_2317975_25 = PRIM_EQ(Nil, v_2317974_25);
+if (True == v_2317975_25) {
+Obj v_2317976_25 = primGenSym(co);
+Obj v_f = v_2317976_25;
+Obj v_2317977_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_exp1);
+Obj v_2317978_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp2);
+Obj v_2317979_25 = makeCons(co->gc, v_2317978_25, Nil);
+Obj v_2317980_25 = makeCons(co->gc, v_f, v_2317979_25);
+Obj v_2317981_25 = makeCons(co->gc, v_2317980_25, Nil);
+Obj v_2317982_25 = makeCons(co->gc, v_2317977_25, v_2317981_25);
+Obj v_2317983_25 = makeCons(co->gc, v_f, v_2317982_25);
+Obj v_2317984_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317983_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317139_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2317984_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316793_25);
+coraCall0(co, v_2317443_25);
 return;
 }
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316794_25 = makeNative(co->gc, 1, clofun12, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v_2317088_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317088_25) {
-Obj v_2317089_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2317089_25;
-Obj v_2317090_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317090_25;
+Obj v_2317444_25 = makeNative(co->gc, 1, clofun18, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2317931_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317931_25) {
+Obj v_2317932_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2317932_25;
+Obj v_2317933_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2317933_25;
+Obj v_2317609_25 = makeNative(co->gc, 2, clofun19, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_op, v_args, v_2317444_25);
 R[1] = v_op;
-R[2] = v_args;
-R[3] = v_2316794_25;
-saveCont(co, clofun13, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_op);
+R[2] = v_2317609_25;
+saveCont(co, clofun20, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_op);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317444_25);
+return;
+}
+}
+case 1:
+{
+Obj v_2317952_25= co->res;
+Obj v_2317609_25 = R[1];
+if (True == v_2317952_25) {
+co->ctx.sp = R;
+coraCall1(co, v_2317609_25, True);
+return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, v_2317609_25, False);
+return;
+}
+}
+case 2:
+{
+Obj v_2317951_25= co->res;
+Obj v_2317609_25 = R[1];
+R[1] = v_2317609_25;
+saveCont(co, clofun20, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317951_25);
+return;
+}
+case 3:
+{
+Obj v_2317950_25= co->res;
+Obj v_op = R[1];
+Obj v_2317609_25 = R[2];
+if (True == v_2317950_25) {
+R[1] = v_2317609_25;
+saveCont(co, clofun20, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_op, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316794_25);
+coraCall1(co, v_2317609_25, False);
+return;
+}
+}
+}
+}
+
+static void clofun19(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_2317610_25 = R[1];
+if (True == v_2317610_25) {
+saveCont(co, clofun19, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), closureRef(R[0], 3));
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, closureRef(R[0], 5));
 return;
 }
 }
 case 1:
 {
-Obj v_2317098_25= co->res;
-Obj v_2317096_25 = R[1];
-Obj v_2317099_25 = makeCons(co->gc, v_2317096_25, v_2317098_25);
-coraReturn(co, v_2317099_25);
+Obj v_2317940_25= co->res;
+Obj v_2317938_25 = R[1];
+Obj v_2317941_25 = makeCons(co->gc, v_2317938_25, v_2317940_25);
+coraReturn(co, v_2317941_25);
 return;
 }
 case 2:
 {
-Obj v_2317097_25= co->res;
-Obj v_args = R[1];
-Obj v_2317096_25 = R[2];
-R[1] = v_2317096_25;
-saveCont(co, clofun13, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317097_25, v_args);
+Obj v_2317939_25= co->res;
+Obj v_2317938_25 = R[1];
+R[1] = v_2317938_25;
+saveCont(co, clofun19, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2317939_25, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317104_25= co->res;
+Obj v_2317946_25= co->res;
 Obj v_tmp = R[1];
-Obj v_2317105_25 = makeCons(co->gc, v_2317104_25, Nil);
-Obj v_2317106_25 = makeCons(co->gc, v_tmp, v_2317105_25);
-Obj v_2317107_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2317106_25);
+Obj v_2317947_25 = makeCons(co->gc, v_2317946_25, Nil);
+Obj v_2317948_25 = makeCons(co->gc, v_tmp, v_2317947_25);
+Obj v_2317949_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2317948_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), v_2317107_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2317949_25);
 return;
 }
 case 4:
 {
-Obj v_2317102_25= co->res;
-Obj v_op = R[1];
-Obj v_args = R[2];
-Obj v_tmp = v_2317102_25;
-Obj v_2317103_25 = makeCons(co->gc, v_op, v_args);
+Obj v_2317944_25= co->res;
+Obj v_tmp = v_2317944_25;
+Obj v_2317945_25 = makeCons(co->gc, closureRef(R[0], 3), closureRef(R[0], 4));
 R[1] = v_tmp;
-saveCont(co, clofun13, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_2317103_25, v_tmp);
+saveCont(co, clofun19, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317945_25, v_tmp);
 return;
 }
 case 5:
 {
-Obj v_2317093_25= co->res;
+Obj v_2317935_25= co->res;
 Obj v_required = R[1];
-Obj v_op = R[2];
-Obj v_args = R[3];
-Obj v_provided = v_2317093_25;
-Obj v_2317094_25 = PRIM_EQ(v_required, v_provided);
-if (True == v_2317094_25) {
-Obj v_2317095_25 = makeCons(co->gc, v_op, Nil);
-Obj v_2317096_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317095_25);
-R[1] = v_args;
-R[2] = v_2317096_25;
-saveCont(co, clofun13, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_provided = v_2317935_25;
+Obj v_2317936_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2317936_25) {
+Obj v_2317937_25 = makeCons(co->gc, closureRef(R[0], 3), Nil);
+Obj v_2317938_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2317937_25);
+R[1] = v_2317938_25;
+saveCont(co, clofun19, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2317100_25 = PRIM_GT(v_required, v_provided);
-if (True == v_2317100_25) {
-Obj v_2317101_25 = PRIM_SUB(v_required, v_provided);
-R[1] = v_op;
-R[2] = v_args;
-saveCont(co, clofun13, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_2317101_25, Nil);
+Obj v_2317942_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2317942_25) {
+Obj v_2317943_25 = PRIM_SUB(v_required, v_provided);
+saveCont(co, clofun19, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2317943_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
 case 6:
 {
-Obj v_2317092_25= co->res;
-Obj v_op = R[1];
-Obj v_args = R[2];
-Obj v_required = v_2317092_25;
+Obj v_2317934_25= co->res;
+Obj v_required = v_2317934_25;
 R[1] = v_required;
-R[2] = v_op;
-R[3] = v_args;
-saveCont(co, clofun13, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_args);
+saveCont(co, clofun19, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), closureRef(R[0], 4));
 return;
 }
-case 7:
+}
+}
+
+static void clofun18(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
 {
-Obj v_2317091_25= co->res;
-Obj v_op = R[1];
-Obj v_args = R[2];
-Obj v_2316794_25 = R[3];
-if (True == v_2317091_25) {
-R[1] = v_op;
-R[2] = v_args;
-saveCont(co, clofun13, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_op);
+saveCont(co, clofun18, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+return;
+}
+case 1:
+{
+Obj v_2317930_25= co->res;
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2317930_25, closureRef(R[0], 3));
+return;
+}
+}
+}
+
+static void clofun17(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_2317426_25 = R[1];
+Obj v_2317427_25 = R[2];
+Obj v_2317904_25 = primIsSymbol(v_2317426_25);
+if (True == v_2317904_25) {
+R[1] = v_2317426_25;
+saveCont(co, clofun17, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_2317426_25, v_2317427_25);
+return;
+} else {
+Obj v_2317908_25 = PRIM_ISCONS(v_2317426_25);
+if (True == v_2317908_25) {
+Obj v_2317909_25 = PRIM_CAR(v_2317426_25);
+Obj v_x = v_2317909_25;
+Obj v_2317910_25 = PRIM_CDR(v_2317426_25);
+Obj v_y = v_2317910_25;
+Obj v_2317911_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, Nil);
+Obj v_2317912_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2317911_25);
+R[1] = v_y;
+R[2] = v_2317427_25;
+R[3] = v_2317912_25;
+saveCont(co, clofun17, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, v_2317427_25);
+return;
+} else {
+Obj v_2317918_25 = makeCons(co->gc, v_2317426_25, Nil);
+Obj v_2317919_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317918_25);
+coraReturn(co, v_2317919_25);
+return;
+}
+}
+}
+case 1:
+{
+Obj v_2317905_25= co->res;
+Obj v_2317426_25 = R[1];
+Obj v_2317906_25 = makeCons(co->gc, v_2317426_25, Nil);
+Obj v_2317907_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317906_25);
+coraReturn(co, v_2317907_25);
+return;
+}
+case 2:
+{
+Obj v_2317914_25= co->res;
+Obj v_2317913_25 = R[1];
+Obj v_2317912_25 = R[2];
+Obj v_2317915_25 = makeCons(co->gc, v_2317914_25, Nil);
+Obj v_2317916_25 = makeCons(co->gc, v_2317913_25, v_2317915_25);
+Obj v_2317917_25 = makeCons(co->gc, v_2317912_25, v_2317916_25);
+coraReturn(co, v_2317917_25);
+return;
+}
+case 3:
+{
+Obj v_2317913_25= co->res;
+Obj v_y = R[1];
+Obj v_2317427_25 = R[2];
+Obj v_2317912_25 = R[3];
+R[1] = v_2317913_25;
+R[2] = v_2317912_25;
+saveCont(co, clofun17, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_y, v_2317427_25);
+return;
+}
+}
+}
+
+static void clofun16(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_x = R[1];
+Obj v_env = R[2];
+Obj v_used = R[3];
+Obj v_2317593_25 = makeNative(co->gc, 2, clofun15, 1, 2, v_used, v_x);
+R[1] = v_x;
+R[2] = v_env;
+R[3] = v_2317593_25;
+saveCont(co, clofun16, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_used);
+return;
+}
+case 1:
+{
+Obj v_2317901_25= co->res;
+Obj v_2317593_25 = R[1];
+Obj v_2317902_25 = primNot(v_2317901_25);
+if (True == v_2317902_25) {
+co->ctx.sp = R;
+coraCall1(co, v_2317593_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316794_25);
+coraCall1(co, v_2317593_25, False);
 return;
 }
 }
+case 2:
+{
+Obj v_2317900_25= co->res;
+Obj v_2317593_25 = R[1];
+R[1] = v_2317593_25;
+saveCont(co, clofun16, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317900_25);
+return;
+}
+case 3:
+{
+Obj v_2317899_25= co->res;
+Obj v_x = R[1];
+Obj v_env = R[2];
+Obj v_2317593_25 = R[3];
+if (True == v_2317899_25) {
+co->ctx.sp = R;
+coraCall1(co, v_2317593_25, True);
+return;
+} else {
+R[1] = v_2317593_25;
+saveCont(co, clofun16, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, v_env);
+return;
+}
+}
+case 4:
+{
+Obj v_2317898_25= co->res;
+Obj v_x = R[1];
+Obj v_env = R[2];
+Obj v_2317593_25 = R[3];
+R[1] = v_x;
+R[2] = v_env;
+R[3] = v_2317593_25;
+saveCont(co, clofun16, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317898_25);
+return;
+}
 }
 }
 
-static void clofun12(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2317594_25 = R[1];
+if (True == v_2317594_25) {
+Obj v_2317894_25 = primGenSym(co);
+coraReturn(co, v_2317894_25);
+return;
+} else {
+saveCont(co, clofun15, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 0));
 return;
 }
+}
 case 1:
 {
-Obj v_2317087_25= co->res;
+Obj v_2317895_25= co->res;
+Obj v_2317896_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317895_25);
+Obj v_2317897_25 = primSet(co, closureRef(R[0], 0), v_2317896_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), v_2317087_25, closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun11(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316777_25 = R[1];
-Obj v_2316778_25 = R[2];
-Obj v_2317063_25 = primIsSymbol(v_2316777_25);
-if (True == v_2317063_25) {
-R[1] = v_2316777_25;
-saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2316777_25, v_2316778_25);
+Obj v_2317421_25 = R[1];
+Obj v_2317422_25 = R[2];
+Obj v_2317423_25 = R[3];
+Obj v_2317424_25 = makeNative(co->gc, 1, clofun13, 0, 3, v_2317421_25, v_2317422_25, v_2317423_25);
+Obj v_2317891_25 = PRIM_EQ(Nil, v_2317421_25);
+if (True == v_2317891_25) {
+Obj v_2317892_25 = PRIM_EQ(Nil, v_2317422_25);
+if (True == v_2317892_25) {
+coraReturn(co, v_2317423_25);
 return;
 } else {
-Obj v_2317067_25 = PRIM_ISCONS(v_2316777_25);
-if (True == v_2317067_25) {
-Obj v_2317068_25 = PRIM_CAR(v_2316777_25);
-Obj v_x = v_2317068_25;
-Obj v_2317069_25 = PRIM_CDR(v_2316777_25);
-Obj v_y = v_2317069_25;
-Obj v_2317070_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, Nil);
-Obj v_2317071_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317070_25);
-R[1] = v_y;
-R[2] = v_2316778_25;
-R[3] = v_2317071_25;
-saveCont(co, clofun11, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_x, v_2316778_25);
+co->ctx.sp = R;
+coraCall0(co, v_2317424_25);
 return;
+}
 } else {
-Obj v_2317077_25 = makeCons(co->gc, v_2316777_25, Nil);
-Obj v_2317078_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317077_25);
-coraReturn(co, v_2317078_25);
+co->ctx.sp = R;
+coraCall0(co, v_2317424_25);
 return;
 }
 }
 }
-case 1:
+}
+
+static void clofun13(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
 {
-Obj v_2317064_25= co->res;
-Obj v_2316777_25 = R[1];
-Obj v_2317065_25 = makeCons(co->gc, v_2316777_25, Nil);
-Obj v_2317066_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317065_25);
-coraReturn(co, v_2317066_25);
+Obj v_2317425_25 = makeNative(co->gc, 1, clofun12, 0, 0);
+Obj v_2317883_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317883_25) {
+Obj v_2317884_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2317884_25;
+Obj v_2317885_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_xs = v_2317885_25;
+Obj v_2317886_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2317886_25) {
+Obj v_2317887_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_y = v_2317887_25;
+Obj v_2317888_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_ys = v_2317888_25;
+Obj v_2317889_25 = makeCons(co->gc, v_x, v_y);
+Obj v_2317890_25 = makeCons(co->gc, v_2317889_25, closureRef(R[0], 2));
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 90)), v_xs, v_ys, v_2317890_25);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317425_25);
 return;
 }
-case 2:
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317425_25);
+return;
+}
+}
+}
+}
+
+static void clofun12(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
 {
-Obj v_2317073_25= co->res;
-Obj v_2317072_25 = R[1];
-Obj v_2317071_25 = R[2];
-Obj v_2317074_25 = makeCons(co->gc, v_2317073_25, Nil);
-Obj v_2317075_25 = makeCons(co->gc, v_2317072_25, v_2317074_25);
-Obj v_2317076_25 = makeCons(co->gc, v_2317071_25, v_2317075_25);
-coraReturn(co, v_2317076_25);
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
-case 3:
+}
+}
+
+static void clofun11(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
 {
-Obj v_2317072_25= co->res;
-Obj v_y = R[1];
-Obj v_2316778_25 = R[2];
-Obj v_2317071_25 = R[3];
-R[1] = v_2317072_25;
-R[2] = v_2317071_25;
-saveCont(co, clofun11, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v_y, v_2316778_25);
+Obj v_x = R[1];
+Obj v_2317870_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, Nil);
+Obj v_2317871_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2317870_25);
+Obj v_2317872_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317871_25);
+Obj v_2317873_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2317872_25);
+Obj v_2317874_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2317873_25);
+Obj v_2317875_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317874_25);
+Obj v_2317876_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317875_25);
+Obj v_2317877_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2317876_25);
+Obj v_2317878_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2317877_25);
+Obj v_2317879_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2317878_25);
+R[1] = v_x;
+saveCont(co, clofun11, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317879_25);
+return;
+}
+case 1:
+{
+Obj v_2317880_25= co->res;
+Obj v_x = R[1];
+if (True == v_2317880_25) {
+Obj v_2317881_25 = primGenSym(co);
+coraReturn(co, v_2317881_25);
+return;
+} else {
+coraReturn(co, v_x);
 return;
 }
 }
 }
+}
 
 static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316773_25 = R[1];
-Obj v_2316774_25 = R[2];
-Obj v_2317058_25 = PRIM_EQ(MAKE_NUMBER(0), v_2316773_25);
-if (True == v_2317058_25) {
-coraReturn(co, v_2316774_25);
+Obj v_2317417_25 = R[1];
+Obj v_2317418_25 = R[2];
+Obj v_2317865_25 = PRIM_EQ(MAKE_NUMBER(0), v_2317417_25);
+if (True == v_2317865_25) {
+coraReturn(co, v_2317418_25);
 return;
 } else {
-Obj v_2317059_25 = PRIM_SUB(v_2316773_25, MAKE_NUMBER(1));
-Obj v_2317060_25 = primGenSym(co);
-Obj v_2317061_25 = makeCons(co->gc, v_2317060_25, v_2316774_25);
+Obj v_2317866_25 = PRIM_SUB(v_2317417_25, MAKE_NUMBER(1));
+Obj v_2317867_25 = primGenSym(co);
+Obj v_2317868_25 = makeCons(co->gc, v_2317867_25, v_2317418_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_2317059_25, v_2317061_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2317866_25, v_2317868_25);
 return;
 }
 }
@@ -8609,29 +8909,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, globalRef(co, getBinding(co, packageID, 127)));
 return;
 }
 case 1:
 {
-Obj v_2317056_25= co->res;
+Obj v_2317863_25= co->res;
 Obj v_find = R[1];
-if (True == v_2317056_25) {
+if (True == v_2317863_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2317055_25= co->res;
-Obj v_find = v_2317055_25;
+Obj v_2317862_25= co->res;
+Obj v_find = v_2317862_25;
 R[1] = v_find;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
 return;
 }
 }
@@ -8643,29 +8943,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, globalRef(co, getBinding(co, packageID, 127)));
 return;
 }
 case 1:
 {
-Obj v_2317053_25= co->res;
+Obj v_2317860_25= co->res;
 Obj v_find = R[1];
-if (True == v_2317053_25) {
+if (True == v_2317860_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2317052_25= co->res;
-Obj v_find = v_2317052_25;
+Obj v_2317859_25= co->res;
+Obj v_find = v_2317859_25;
 R[1] = v_find;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
 return;
 }
 }
@@ -8677,21 +8977,21 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, globalRef(co, getBinding(co, packageID, 127)));
 return;
 }
 case 1:
 {
-Obj v_2317049_25= co->res;
-Obj v_2317050_25 = primNot(v_2317049_25);
-coraReturn(co, v_2317050_25);
+Obj v_2317856_25= co->res;
+Obj v_2317857_25 = primNot(v_2317856_25);
+coraReturn(co, v_2317857_25);
 return;
 }
 case 2:
 {
-Obj v_2317048_25= co->res;
+Obj v_2317855_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_2317048_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317855_25);
 return;
 }
 }
@@ -8701,40 +9001,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316769_25 = R[1];
-Obj v_2316770_25 = R[2];
-Obj v_2316972_25 = PRIM_EQ(Nil, v_2316770_25);
-if (True == v_2316972_25) {
+Obj v_2317413_25 = R[1];
+Obj v_2317414_25 = R[2];
+Obj v_2317779_25 = PRIM_EQ(Nil, v_2317414_25);
+if (True == v_2317779_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2316973_25 = PRIM_ISCONS(v_2316770_25);
-if (True == v_2316973_25) {
-Obj v_2316974_25 = PRIM_CAR(v_2316770_25);
-Obj v_hd = v_2316974_25;
-Obj v_2316975_25 = PRIM_CDR(v_2316770_25);
-Obj v_tl = v_2316975_25;
-R[1] = v_2316769_25;
+Obj v_2317780_25 = PRIM_ISCONS(v_2317414_25);
+if (True == v_2317780_25) {
+Obj v_2317781_25 = PRIM_CAR(v_2317414_25);
+Obj v_hd = v_2317781_25;
+Obj v_2317782_25 = PRIM_CDR(v_2317414_25);
+Obj v_tl = v_2317782_25;
+R[1] = v_2317413_25;
 R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v_2316769_25, v_hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317413_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316976_25= co->res;
-Obj v_2316769_25 = R[1];
+Obj v_2317783_25= co->res;
+Obj v_2317413_25 = R[1];
 Obj v_tl = R[2];
-Obj v_2316977_25 = PRIM_LT(v_2316976_25, MAKE_NUMBER(0));
-if (True == v_2316977_25) {
+Obj v_2317784_25 = PRIM_LT(v_2317783_25, MAKE_NUMBER(0));
+if (True == v_2317784_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v_2316769_25, v_tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_2317413_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8751,7 +9051,7 @@ case 0:
 Obj v_x = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 130)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8761,32 +9061,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316763_25 = R[1];
-Obj v_2316764_25 = R[2];
-Obj v_2316765_25 = R[3];
-Obj v_2316961_25 = PRIM_EQ(Nil, v_2316765_25);
-if (True == v_2316961_25) {
+Obj v_2317407_25 = R[1];
+Obj v_2317408_25 = R[2];
+Obj v_2317409_25 = R[3];
+Obj v_2317768_25 = PRIM_EQ(Nil, v_2317409_25);
+if (True == v_2317768_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2316767_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2316765_25, v_2316763_25, v_2316764_25);
-Obj v_2316966_25 = PRIM_ISCONS(v_2316765_25);
-if (True == v_2316966_25) {
-Obj v_2316967_25 = PRIM_CAR(v_2316765_25);
-Obj v_a = v_2316967_25;
-Obj v_2316968_25 = PRIM_CDR(v_2316765_25);
-Obj v_2316969_25 = PRIM_EQ(v_2316764_25, v_a);
-if (True == v_2316969_25) {
-coraReturn(co, v_2316763_25);
+Obj v_2317411_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2317409_25, v_2317407_25, v_2317408_25);
+Obj v_2317773_25 = PRIM_ISCONS(v_2317409_25);
+if (True == v_2317773_25) {
+Obj v_2317774_25 = PRIM_CAR(v_2317409_25);
+Obj v_a = v_2317774_25;
+Obj v_2317775_25 = PRIM_CDR(v_2317409_25);
+Obj v_2317776_25 = PRIM_EQ(v_2317408_25, v_a);
+if (True == v_2317776_25) {
+coraReturn(co, v_2317407_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316767_25);
+coraCall0(co, v_2317411_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316767_25);
+coraCall0(co, v_2317411_25);
 return;
 }
 }
@@ -8798,18 +9098,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316962_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316962_25) {
-Obj v_2316963_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316964_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_b = v_2316964_25;
-Obj v_2316965_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2317769_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317769_25) {
+Obj v_2317770_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317771_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2317771_25;
+Obj v_2317772_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v_2316965_25, closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 130)), v_2317772_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8820,39 +9120,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316758_25 = R[1];
-Obj v_2316759_25 = R[2];
-Obj v_2316760_25 = R[3];
-Obj v_2316955_25 = PRIM_EQ(Nil, v_2316760_25);
-if (True == v_2316955_25) {
-coraReturn(co, v_2316759_25);
+Obj v_2317402_25 = R[1];
+Obj v_2317403_25 = R[2];
+Obj v_2317404_25 = R[3];
+Obj v_2317762_25 = PRIM_EQ(Nil, v_2317404_25);
+if (True == v_2317762_25) {
+coraReturn(co, v_2317403_25);
 return;
 } else {
-Obj v_2316956_25 = PRIM_ISCONS(v_2316760_25);
-if (True == v_2316956_25) {
-Obj v_2316957_25 = PRIM_CAR(v_2316760_25);
-Obj v_x = v_2316957_25;
-Obj v_2316958_25 = PRIM_CDR(v_2316760_25);
-Obj v_y = v_2316958_25;
-R[1] = v_2316758_25;
+Obj v_2317763_25 = PRIM_ISCONS(v_2317404_25);
+if (True == v_2317763_25) {
+Obj v_2317764_25 = PRIM_CAR(v_2317404_25);
+Obj v_x = v_2317764_25;
+Obj v_2317765_25 = PRIM_CDR(v_2317404_25);
+Obj v_y = v_2317765_25;
+R[1] = v_2317402_25;
 R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v_2316758_25, v_2316759_25, v_x);
+coraCall2(co, v_2317402_25, v_2317403_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2316959_25= co->res;
-Obj v_2316758_25 = R[1];
+Obj v_2317766_25= co->res;
+Obj v_2317402_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v_2316758_25, v_2316959_25, v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2317402_25, v_2317766_25, v_y);
 return;
 }
 }
@@ -8862,44 +9162,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316753_25 = R[1];
-Obj v_2316754_25 = R[2];
-Obj v_2316940_25 = PRIM_EQ(Nil, v_2316754_25);
-if (True == v_2316940_25) {
+Obj v_2317397_25 = R[1];
+Obj v_2317398_25 = R[2];
+Obj v_2317747_25 = PRIM_EQ(Nil, v_2317398_25);
+if (True == v_2317747_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2316756_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2316754_25, v_2316753_25);
-Obj v_2316944_25 = PRIM_ISCONS(v_2316754_25);
-if (True == v_2316944_25) {
-Obj v_2316945_25 = PRIM_CAR(v_2316754_25);
-Obj v_2316946_25 = PRIM_ISCONS(v_2316945_25);
-if (True == v_2316946_25) {
-Obj v_2316947_25 = PRIM_CAR(v_2316754_25);
-Obj v_2316948_25 = PRIM_CAR(v_2316947_25);
-Obj v_x = v_2316948_25;
-Obj v_2316949_25 = PRIM_CAR(v_2316754_25);
-Obj v_2316950_25 = PRIM_CDR(v_2316949_25);
-Obj v_y = v_2316950_25;
-Obj v_2316951_25 = PRIM_CDR(v_2316754_25);
-Obj v_2316952_25 = PRIM_EQ(v_2316753_25, v_x);
-if (True == v_2316952_25) {
-Obj v_2316953_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2316953_25);
+Obj v_2317400_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2317398_25, v_2317397_25);
+Obj v_2317751_25 = PRIM_ISCONS(v_2317398_25);
+if (True == v_2317751_25) {
+Obj v_2317752_25 = PRIM_CAR(v_2317398_25);
+Obj v_2317753_25 = PRIM_ISCONS(v_2317752_25);
+if (True == v_2317753_25) {
+Obj v_2317754_25 = PRIM_CAR(v_2317398_25);
+Obj v_2317755_25 = PRIM_CAR(v_2317754_25);
+Obj v_x = v_2317755_25;
+Obj v_2317756_25 = PRIM_CAR(v_2317398_25);
+Obj v_2317757_25 = PRIM_CDR(v_2317756_25);
+Obj v_y = v_2317757_25;
+Obj v_2317758_25 = PRIM_CDR(v_2317398_25);
+Obj v_2317759_25 = PRIM_EQ(v_2317397_25, v_x);
+if (True == v_2317759_25) {
+Obj v_2317760_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2317760_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316756_25);
+coraCall0(co, v_2317400_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316756_25);
+coraCall0(co, v_2317400_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2316756_25);
+coraCall0(co, v_2317400_25);
 return;
 }
 }
@@ -8911,17 +9211,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2316941_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2316941_25) {
-Obj v_2316942_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2316943_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2316943_25;
+Obj v_2317748_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2317748_25) {
+Obj v_2317749_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2317750_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2317750_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 1), v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 0ae85f3..a937c56 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -51,43 +51,74 @@
 	0 res => res
 	n res => (temp-list (- n 1) (cons (gensym) res)))
 
+  ;; The later passes give these names a meaning, ['return x] is not a call of return.
+  (defun local-name (x)
+    (if (elem? x ['return 'call 'tailcall 'continuation '%continuation '%closure
+		'%closure-ref '%const '%global '%builtin])
+	(gensym)
+	x))
+
+  (func extend-env
+	[] [] env => env
+	[x . xs] [y . ys] env => (extend-env xs ys (cons (cons x y) env)))
+
+  ;; Within one lambda every variable becomes a C variable of the same function,
+  ;; so a let that reuses a name (it shadows another one, or a sibling let has it)
+  ;; binds a fresh one.
+  (defun let-variable (x env used)
+    (if (or (elem? x (value used)) (not (null? (assq x env))))
+	(gensym)
+	(begin
+	 (set used (cons x (value used)))
+	 (local-name x))))
+
   (func parse-quote
 	x globals => (begin (add-symbol-to-list x globals) ['%const x]) where (symbol? x)
 	[x . y] globals => [['%builtin 'cons] (parse-quote x globals) (parse-quote y globals)]
 	x globals => ['%const x])
 
+  ;; env is an association list from the variables in scope to their unique names
+  ;; used is a symbol, its value is the variables of the current lambda
   (func parse
-	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
-	_ globals ['quote x] => (parse-quote x globals)
-	env globals x => (if (elem? x env) x
-			     (begin
-			      (add-symbol-to-list x globals)
-			      ['%global x])) where (symbol? x)
-	env globals ['lambda args body] => ['lambda args (parse (append args env) globals body)]
+	_ used globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
+	_ used globals ['quote x] => (parse-quote x globals)
+	env used globals x => (let find (assq x env)
+				   (if (null? find)
+				       (begin
+					(add-symbol-to-list x globals)
+					['%global x])
+				       (cdr find))) where (symbol? x)
+	env used globals ['lambda args body] => (let used1 (gensym)
+						     args1 (map local-name args)
+						     (begin
+						      (set used1 args)
+						      ['lambda args1 (parse (extend-env args args1 env) used1 globals body)]))
 	;; macro rewrite to avoid code explosion during tailify-pass
-	env globals ['if ['if . exp1] . exp2] => (let f (gensym)
-						      v (gensym)
-						      (parse env globals ['let f ['lambda [v] ['if v . exp2]]
-							     [f ['if . exp1]]]))
-	env globals ['if . args] => ['if . (map (parse env globals) args)]
-	env globals ['do x y] => ['do (parse env globals x) (parse env globals y)]
-	env globals ['let a b c] => ['let a (parse env globals b) (parse (cons a env) globals c)]
+	env used globals ['if ['if . exp1] . exp2] => (let f (gensym)
+							   v (gensym)
+							   (parse env used globals ['let f ['lambda [v] ['if v . exp2]]
+								  [f ['if . exp1]]]))
+	env used globals ['if . args] => ['if . (map (parse env used globals) args)]
+	env used globals ['do x y] => ['do (parse env used globals x) (parse env used globals y)]
+	env used globals ['let a b c] => (let b1 (parse env used globals b)
+					      a1 (let-variable a env used)
+					      ['let a1 b1 (parse (cons (cons a a1) env) used globals c)])
 	;; macro rewrite to avoid code explosion during tailify-pass
-	env globals [['lambda . exp1] ['if . exp2]] => (let f (gensym)
-							    (parse env globals ['let f ['lambda . exp1]
-								   [f ['if . exp2]]]))
-	env globals [op . args] => (let required (builtin->args op)
-					provided (length args)
-					(cond
-					  ((= required provided)  [['%builtin op] . (map (parse env globals) args)])
-					  ((> required provided)
-					   ;; rewrite partial apply of primitives
-					   ;; (+ x) => (lambda (tmp) (+ x tmp))
-					   (let tmp (temp-list (- required provided) ())
-						(parse env globals ['lambda tmp (append [op . args] tmp)])))
-					  (true (error "primitive call mismatch"))))
-	where (builtin? op)
-	env globals ls => (map (parse env globals) ls))
+	env used globals [['lambda . exp1] ['if . exp2]] => (let f (gensym)
+								 (parse env used globals ['let f ['lambda . exp1]
+									[f ['if . exp2]]]))
+	env used globals [op . args] => (let required (builtin->args op)
+					     provided (length args)
+					     (cond
+					       ((= required provided)  [['%builtin op] . (map (parse env used globals) args)])
+					       ((> required provided)
+						;; rewrite partial apply of primitives
+						;; (+ x) => (lambda (tmp) (+ x tmp))
+						(let tmp (temp-list (- required provided) ())
+						     (parse env used globals ['lambda tmp (append [op . args] tmp)])))
+					       (true (error "primitive call mismatch"))))
+	where (and (builtin? op) (null? (assq op env)))
+	env used globals ls => (map (parse env used globals) ls))
 
   (func union
 	[] s2 => s2
@@ -498,7 +529,10 @@
   ;; 					 (display "\n")))
 
   (defun parse-pass (globals exp)
-    (parse [] globals exp))
+    (let used (gensym)
+      (begin
+	(set used ())
+	(parse [] used globals exp))))
 
   (defun closure-convert-pass (exp)
     (closure-convert [] exp))
-- 
2.43.0


From f01c471090767d87ffc55e636cb8d0311b4f1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 09/53] fix: partial evaluation preserves the meaning of the
 program

It replaced a variable by a global that was set in between, let a binder capture
the variables of a replacement, dropped the effects of an unused part of a pair
and folded calls of local variables named like primitives.
---
 init.c         | 2922 +++++++++++------------
 lib/peval.cora |   59 +-
 lib/toc.c      | 6074 ++++++++++++++++++++++++------------------------
 3 files changed, 4543 insertions(+), 4512 deletions(-)

diff --git a/init.c b/init.c
index bad4dd9..ecf23ba 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313265_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v_2313268_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v_2313271_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v_2313274_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v_2313277_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v_2313281_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v_2313286_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v_2313290_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2313298_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2313300_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2313305_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2313669_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2313672_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2313675_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2313678_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2313681_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2313685_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2313690_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2313694_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2313702_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2313704_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2313709_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v_2313785_25= co->res;
-Obj v_2313791_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2313803_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v_2313804_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2313805_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313804_25);
-Obj v_2313806_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313805_25);
-Obj v_2313807_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2313808_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313807_25);
-Obj v_2313809_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313808_25);
-Obj v_2313810_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2313811_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313810_25);
-Obj v_2313812_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313811_25);
-Obj v_2313813_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2313814_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313813_25);
-Obj v_2313815_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313814_25);
-Obj v_2313816_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2313817_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313816_25);
-Obj v_2313818_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313817_25);
-Obj v_2313819_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2313820_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313819_25);
-Obj v_2313821_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2313820_25);
-Obj v_2313822_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2313823_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313822_25);
-Obj v_2313824_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2313823_25);
-Obj v_2313825_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2313826_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313825_25);
-Obj v_2313827_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2313826_25);
-Obj v_2313828_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2313829_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313828_25);
-Obj v_2313830_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2313829_25);
-Obj v_2313831_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2313832_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313831_25);
-Obj v_2313833_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313832_25);
-Obj v_2313834_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2313835_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313834_25);
-Obj v_2313836_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2313835_25);
-Obj v_2313837_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2313838_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2313837_25);
-Obj v_2313839_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2313838_25);
-Obj v_2313840_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2313841_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2313840_25);
-Obj v_2313842_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2313841_25);
-Obj v_2313843_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2313844_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313843_25);
-Obj v_2313845_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2313844_25);
-Obj v_2313846_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2313847_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313846_25);
-Obj v_2313848_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2313847_25);
-Obj v_2313849_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2313850_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313849_25);
-Obj v_2313851_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2313850_25);
-Obj v_2313852_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2313853_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2313852_25);
-Obj v_2313854_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2313853_25);
-Obj v_2313855_25 = makeCons(co->gc, v_2313854_25, Nil);
-Obj v_2313856_25 = makeCons(co->gc, v_2313851_25, v_2313855_25);
-Obj v_2313857_25 = makeCons(co->gc, v_2313848_25, v_2313856_25);
-Obj v_2313858_25 = makeCons(co->gc, v_2313845_25, v_2313857_25);
-Obj v_2313859_25 = makeCons(co->gc, v_2313842_25, v_2313858_25);
-Obj v_2313860_25 = makeCons(co->gc, v_2313839_25, v_2313859_25);
-Obj v_2313861_25 = makeCons(co->gc, v_2313836_25, v_2313860_25);
-Obj v_2313862_25 = makeCons(co->gc, v_2313833_25, v_2313861_25);
-Obj v_2313863_25 = makeCons(co->gc, v_2313830_25, v_2313862_25);
-Obj v_2313864_25 = makeCons(co->gc, v_2313827_25, v_2313863_25);
-Obj v_2313865_25 = makeCons(co->gc, v_2313824_25, v_2313864_25);
-Obj v_2313866_25 = makeCons(co->gc, v_2313821_25, v_2313865_25);
-Obj v_2313867_25 = makeCons(co->gc, v_2313818_25, v_2313866_25);
-Obj v_2313868_25 = makeCons(co->gc, v_2313815_25, v_2313867_25);
-Obj v_2313869_25 = makeCons(co->gc, v_2313812_25, v_2313868_25);
-Obj v_2313870_25 = makeCons(co->gc, v_2313809_25, v_2313869_25);
-Obj v_2313871_25 = makeCons(co->gc, v_2313806_25, v_2313870_25);
-Obj v_2313872_25 = primSet(co, getBinding(co, packageID, 69).name, v_2313871_25);
-Obj v_2313887_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v_2313891_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v_2314069_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v_2314070_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v_2314071_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314070_25);
-Obj v_2314072_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314071_25);
-Obj v_2314073_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314072_25);
-Obj v_2314074_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2314073_25);
-Obj v_2314075_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2314074_25);
-Obj v_2314076_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2314075_25);
-Obj v_2314077_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314076_25);
-Obj v_2314078_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314077_25);
-Obj v_2314079_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314078_25);
-Obj v_2314080_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314079_25);
-Obj v_2314081_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314080_25);
-Obj v_2314082_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314081_25);
-Obj v_2314083_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314082_25);
-Obj v_2314084_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314083_25);
-Obj v_2314085_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314084_25);
-Obj v_2314086_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314085_25);
-Obj v_2314087_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314086_25);
-Obj v_2314088_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314087_25);
-Obj v_2314089_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314088_25);
-Obj v_2314090_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314089_25);
-Obj v_2314091_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314090_25);
-Obj v_2314092_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314091_25);
-Obj v_2314093_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314092_25);
-Obj v_2314094_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314093_25);
-Obj v_2314095_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314094_25);
-Obj v_2314096_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314095_25);
-Obj v_2314097_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314096_25);
-Obj v_2314098_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2314097_25);
-Obj v_2314099_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2314098_25);
-Obj v_2314100_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2314099_25);
-Obj v_2314101_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2314100_25);
-Obj v_2314102_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314101_25);
-Obj v_2314103_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314102_25);
-Obj v_2314104_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314103_25);
-Obj v_2314105_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314104_25);
-Obj v_2314106_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314105_25);
-Obj v_2314107_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314106_25);
-Obj v_2314108_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314107_25);
-Obj v_2314109_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v_2314110_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v_2314111_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v_2314112_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v_2314113_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v_2314114_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v_2314115_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v_2314116_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v_2314117_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v_2314118_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v_2314119_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v_2314120_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v_2314121_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v_2314122_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v_2314123_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v_2314124_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v_2314125_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v_2314126_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v_2314127_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v_2314128_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v_2314129_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v_2314130_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v_2314131_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v_2314132_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v_2314133_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v_2314134_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v_2314135_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v_2314136_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v_2314137_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v_2314138_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v_2314139_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v_2314140_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v_2314141_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v_2314142_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v_2314143_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v_2314144_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v_2314145_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v_2314146_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v_2314147_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v_2314147_25);
+Obj v_2314189_25= co->res;
+Obj v_2314195_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2314207_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v_2314208_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2314209_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314208_25);
+Obj v_2314210_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314209_25);
+Obj v_2314211_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2314212_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314211_25);
+Obj v_2314213_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2314212_25);
+Obj v_2314214_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2314215_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314214_25);
+Obj v_2314216_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314215_25);
+Obj v_2314217_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2314218_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314217_25);
+Obj v_2314219_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2314218_25);
+Obj v_2314220_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2314221_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314220_25);
+Obj v_2314222_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2314221_25);
+Obj v_2314223_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2314224_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314223_25);
+Obj v_2314225_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2314224_25);
+Obj v_2314226_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2314227_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314226_25);
+Obj v_2314228_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2314227_25);
+Obj v_2314229_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2314230_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314229_25);
+Obj v_2314231_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2314230_25);
+Obj v_2314232_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2314233_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314232_25);
+Obj v_2314234_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2314233_25);
+Obj v_2314235_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2314236_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314235_25);
+Obj v_2314237_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2314236_25);
+Obj v_2314238_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2314239_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314238_25);
+Obj v_2314240_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2314239_25);
+Obj v_2314241_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2314242_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314241_25);
+Obj v_2314243_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2314242_25);
+Obj v_2314244_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2314245_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2314244_25);
+Obj v_2314246_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2314245_25);
+Obj v_2314247_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2314248_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314247_25);
+Obj v_2314249_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2314248_25);
+Obj v_2314250_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2314251_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314250_25);
+Obj v_2314252_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2314251_25);
+Obj v_2314253_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2314254_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314253_25);
+Obj v_2314255_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2314254_25);
+Obj v_2314256_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2314257_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314256_25);
+Obj v_2314258_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2314257_25);
+Obj v_2314259_25 = makeCons(co->gc, v_2314258_25, Nil);
+Obj v_2314260_25 = makeCons(co->gc, v_2314255_25, v_2314259_25);
+Obj v_2314261_25 = makeCons(co->gc, v_2314252_25, v_2314260_25);
+Obj v_2314262_25 = makeCons(co->gc, v_2314249_25, v_2314261_25);
+Obj v_2314263_25 = makeCons(co->gc, v_2314246_25, v_2314262_25);
+Obj v_2314264_25 = makeCons(co->gc, v_2314243_25, v_2314263_25);
+Obj v_2314265_25 = makeCons(co->gc, v_2314240_25, v_2314264_25);
+Obj v_2314266_25 = makeCons(co->gc, v_2314237_25, v_2314265_25);
+Obj v_2314267_25 = makeCons(co->gc, v_2314234_25, v_2314266_25);
+Obj v_2314268_25 = makeCons(co->gc, v_2314231_25, v_2314267_25);
+Obj v_2314269_25 = makeCons(co->gc, v_2314228_25, v_2314268_25);
+Obj v_2314270_25 = makeCons(co->gc, v_2314225_25, v_2314269_25);
+Obj v_2314271_25 = makeCons(co->gc, v_2314222_25, v_2314270_25);
+Obj v_2314272_25 = makeCons(co->gc, v_2314219_25, v_2314271_25);
+Obj v_2314273_25 = makeCons(co->gc, v_2314216_25, v_2314272_25);
+Obj v_2314274_25 = makeCons(co->gc, v_2314213_25, v_2314273_25);
+Obj v_2314275_25 = makeCons(co->gc, v_2314210_25, v_2314274_25);
+Obj v_2314276_25 = primSet(co, getBinding(co, packageID, 69).name, v_2314275_25);
+Obj v_2314291_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v_2314295_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v_2314473_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v_2314474_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2314475_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314474_25);
+Obj v_2314476_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314475_25);
+Obj v_2314477_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314476_25);
+Obj v_2314478_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2314477_25);
+Obj v_2314479_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2314478_25);
+Obj v_2314480_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2314479_25);
+Obj v_2314481_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314480_25);
+Obj v_2314482_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314481_25);
+Obj v_2314483_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314482_25);
+Obj v_2314484_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314483_25);
+Obj v_2314485_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314484_25);
+Obj v_2314486_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314485_25);
+Obj v_2314487_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314486_25);
+Obj v_2314488_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314487_25);
+Obj v_2314489_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314488_25);
+Obj v_2314490_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314489_25);
+Obj v_2314491_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314490_25);
+Obj v_2314492_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314491_25);
+Obj v_2314493_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314492_25);
+Obj v_2314494_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314493_25);
+Obj v_2314495_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314494_25);
+Obj v_2314496_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314495_25);
+Obj v_2314497_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314496_25);
+Obj v_2314498_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314497_25);
+Obj v_2314499_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314498_25);
+Obj v_2314500_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314499_25);
+Obj v_2314501_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314500_25);
+Obj v_2314502_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2314501_25);
+Obj v_2314503_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2314502_25);
+Obj v_2314504_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2314503_25);
+Obj v_2314505_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2314504_25);
+Obj v_2314506_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314505_25);
+Obj v_2314507_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314506_25);
+Obj v_2314508_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314507_25);
+Obj v_2314509_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314508_25);
+Obj v_2314510_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314509_25);
+Obj v_2314511_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314510_25);
+Obj v_2314512_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314511_25);
+Obj v_2314513_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2314514_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2314515_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2314516_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2314517_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2314518_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2314519_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v_2314520_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v_2314521_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v_2314522_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v_2314523_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2314524_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2314525_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2314526_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2314527_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2314528_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2314529_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2314530_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2314531_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2314532_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2314533_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2314534_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2314535_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2314536_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2314537_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2314538_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2314539_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2314540_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2314541_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2314542_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2314543_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2314544_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v_2314545_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2314546_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v_2314547_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2314548_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2314549_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2314550_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2314551_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2314551_25);
 return;
 }
 case 2:
 {
-Obj v_2313735_25= co->res;
-Obj v_2313764_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v_2313765_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2314139_25= co->res;
+Obj v_2314168_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v_2314169_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2313718_25= co->res;
-Obj v_2313732_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2314122_25= co->res;
+Obj v_2314136_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v_2313696_25= co->res;
-Obj v_2313716_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2314100_25= co->res;
+Obj v_2314120_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v_2313665_25= co->res;
-Obj v_2313666_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v_2313667_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v_2313670_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v_2313694_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v_2314069_25= co->res;
+Obj v_2314070_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v_2314071_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v_2314074_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v_2314098_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v_2313557_25= co->res;
-Obj v_2313609_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v_2313610_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2313615_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v_2313619_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v_2313620_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2313628_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v_2313629_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2313635_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2313646_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v_2313652_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v_2313961_25= co->res;
+Obj v_2314013_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v_2314014_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2314019_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v_2314023_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v_2314024_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2314032_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v_2314033_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2314039_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2314050_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2314056_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v_2313452_25= co->res;
-Obj v_2313474_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v_2313507_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v_2313520_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v_2313542_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v_2313556_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v_2313856_25= co->res;
+Obj v_2313878_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2313911_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2313924_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2313946_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2313960_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v_2313437_25= co->res;
-Obj v_2313440_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2313450_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v_2313841_25= co->res;
+Obj v_2313844_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2313854_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v_2313423_25= co->res;
-Obj v_2313435_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v_2313827_25= co->res;
+Obj v_2313839_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v_2313409_25= co->res;
-Obj v_2313421_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v_2313813_25= co->res;
+Obj v_2313825_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v_2313395_25= co->res;
+Obj v_2313799_25= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v_2313373_25= co->res;
-Obj v_2313378_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v_2313381_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v_2313393_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v_2313777_25= co->res;
+Obj v_2313782_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2313785_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2313797_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v_2313363_25= co->res;
+Obj v_2313767_25= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v_2313361_25= co->res;
+Obj v_2313765_25= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v_2313306_25= co->res;
-Obj v_2313307_25 = primSet(co, getBinding(co, packageID, 149).name, v_2313306_25);
-Obj v_2313313_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v_2313314_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v_2313315_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v_2313316_25 = primGenSym(co);
-Obj v_2313317_25 = primSet(co, getBinding(co, packageID, 145).name, v_2313316_25);
-Obj v_2313321_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v_2313330_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v_2313331_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v_2313348_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v_2313349_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v_2313360_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v_2313710_25= co->res;
+Obj v_2313711_25 = primSet(co, getBinding(co, packageID, 149).name, v_2313710_25);
+Obj v_2313717_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2313718_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2313719_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v_2313720_25 = primGenSym(co);
+Obj v_2313721_25 = primSet(co, getBinding(co, packageID, 145).name, v_2313720_25);
+Obj v_2313725_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2313734_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2313735_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2313752_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2313753_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v_2313764_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313140_25 = R[1];
-Obj v_2313141_25 = R[2];
-Obj v_2313142_25 = R[3];
-Obj v_2313143_25 = R[4];
-Obj v_2313251_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2313140_25, v_2313141_25, v_2313142_25, v_2313143_25);
-R[1] = v_2313143_25;
-R[2] = v_2313251_25;
+Obj v_2313544_25 = R[1];
+Obj v_2313545_25 = R[2];
+Obj v_2313546_25 = R[3];
+Obj v_2313547_25 = R[4];
+Obj v_2313655_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2313544_25, v_2313545_25, v_2313546_25, v_2313547_25);
+R[1] = v_2313547_25;
+R[2] = v_2313655_25;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313143_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313547_25);
 return;
 }
 case 1:
 {
-Obj v_2314068_25= co->res;
-Obj v_2313251_25 = R[1];
-if (True == v_2314068_25) {
+Obj v_2314472_25= co->res;
+Obj v_2313655_25 = R[1];
+if (True == v_2314472_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313251_25, True);
+coraCall1(co, v_2313655_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313251_25, False);
+coraCall1(co, v_2313655_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2314067_25= co->res;
-Obj v_2313143_25 = R[1];
-Obj v_2313251_25 = R[2];
-if (True == v_2314067_25) {
+Obj v_2314471_25= co->res;
+Obj v_2313547_25 = R[1];
+Obj v_2313655_25 = R[2];
+if (True == v_2314471_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313251_25, True);
+coraCall1(co, v_2313655_25, True);
 return;
 } else {
-R[1] = v_2313251_25;
+R[1] = v_2313655_25;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313143_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313547_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2314065_25= co->res;
-Obj v_2313143_25 = R[1];
-Obj v_2313251_25 = R[2];
-if (True == v_2314065_25) {
+Obj v_2314469_25= co->res;
+Obj v_2313547_25 = R[1];
+Obj v_2313655_25 = R[2];
+if (True == v_2314469_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313251_25, True);
+coraCall1(co, v_2313655_25, True);
 return;
 } else {
-Obj v_2314066_25 = primIsString(v_2313143_25);
-if (True == v_2314066_25) {
+Obj v_2314470_25 = primIsString(v_2313547_25);
+if (True == v_2314470_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313251_25, True);
+coraCall1(co, v_2313655_25, True);
 return;
 } else {
-R[1] = v_2313143_25;
-R[2] = v_2313251_25;
+R[1] = v_2313547_25;
+R[2] = v_2313655_25;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313143_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313547_25);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313252_25 = R[1];
-if (True == v_2313252_25) {
+Obj v_2313656_25 = R[1];
+if (True == v_2313656_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v_2313145_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2314053_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2314053_25) {
-Obj v_2314054_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2314055_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2314054_25);
-if (True == v_2314055_25) {
-Obj v_2314056_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314057_25 = PRIM_ISCONS(v_2314056_25);
-if (True == v_2314057_25) {
-Obj v_2314058_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314059_25 = PRIM_CAR(v_2314058_25);
-Obj v_x = v_2314059_25;
-Obj v_2314060_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314061_25 = PRIM_CDR(v_2314060_25);
-Obj v_2314062_25 = PRIM_EQ(Nil, v_2314061_25);
-if (True == v_2314062_25) {
-Obj v_2314063_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2314064_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314063_25);
-coraReturn(co, v_2314064_25);
+Obj v_2313549_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2314457_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2314457_25) {
+Obj v_2314458_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2314459_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2314458_25);
+if (True == v_2314459_25) {
+Obj v_2314460_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314461_25 = PRIM_ISCONS(v_2314460_25);
+if (True == v_2314461_25) {
+Obj v_2314462_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314463_25 = PRIM_CAR(v_2314462_25);
+Obj v_x = v_2314463_25;
+Obj v_2314464_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314465_25 = PRIM_CDR(v_2314464_25);
+Obj v_2314466_25 = PRIM_EQ(Nil, v_2314465_25);
+if (True == v_2314466_25) {
+Obj v_2314467_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2314468_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314467_25);
+coraReturn(co, v_2314468_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313145_25);
+coraCall0(co, v_2313549_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313145_25);
+coraCall0(co, v_2313549_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313145_25);
+coraCall0(co, v_2313549_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313145_25);
+coraCall0(co, v_2313549_25);
 return;
 }
 }
@@ -721,37 +721,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313892_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2313892_25) {
+Obj v_2314296_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2314296_25) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2313147_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314031_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314031_25) {
-Obj v_2314032_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314033_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314032_25);
-if (True == v_2314033_25) {
-Obj v_2314034_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314035_25 = PRIM_ISCONS(v_2314034_25);
-if (True == v_2314035_25) {
-Obj v_2314036_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314037_25 = PRIM_CAR(v_2314036_25);
-Obj v_args = v_2314037_25;
-Obj v_2314038_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314039_25 = PRIM_CDR(v_2314038_25);
-Obj v_2314040_25 = PRIM_ISCONS(v_2314039_25);
-if (True == v_2314040_25) {
-Obj v_2314041_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314042_25 = PRIM_CDR(v_2314041_25);
-Obj v_2314043_25 = PRIM_CAR(v_2314042_25);
-Obj v_body = v_2314043_25;
-Obj v_2314044_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314045_25 = PRIM_CDR(v_2314044_25);
-Obj v_2314046_25 = PRIM_CDR(v_2314045_25);
-Obj v_2314047_25 = PRIM_EQ(Nil, v_2314046_25);
-if (True == v_2314047_25) {
+Obj v_2313551_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314435_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314435_25) {
+Obj v_2314436_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314437_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314436_25);
+if (True == v_2314437_25) {
+Obj v_2314438_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314439_25 = PRIM_ISCONS(v_2314438_25);
+if (True == v_2314439_25) {
+Obj v_2314440_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314441_25 = PRIM_CAR(v_2314440_25);
+Obj v_args = v_2314441_25;
+Obj v_2314442_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314443_25 = PRIM_CDR(v_2314442_25);
+Obj v_2314444_25 = PRIM_ISCONS(v_2314443_25);
+if (True == v_2314444_25) {
+Obj v_2314445_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314446_25 = PRIM_CDR(v_2314445_25);
+Obj v_2314447_25 = PRIM_CAR(v_2314446_25);
+Obj v_body = v_2314447_25;
+Obj v_2314448_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314449_25 = PRIM_CDR(v_2314448_25);
+Obj v_2314450_25 = PRIM_CDR(v_2314449_25);
+Obj v_2314451_25 = PRIM_EQ(Nil, v_2314450_25);
+if (True == v_2314451_25) {
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun92, 4, R);
@@ -759,35 +759,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313147_25);
+coraCall0(co, v_2313551_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313147_25);
+coraCall0(co, v_2313551_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313147_25);
+coraCall0(co, v_2313551_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313147_25);
+coraCall0(co, v_2313551_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313147_25);
+coraCall0(co, v_2313551_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313894_25= co->res;
-if (True == v_2313894_25) {
+Obj v_2314298_25= co->res;
+if (True == v_2314298_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj v_2313893_25= co->res;
-if (True == v_2313893_25) {
+Obj v_2314297_25= co->res;
+if (True == v_2314297_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj v_2314049_25= co->res;
+Obj v_2314453_25= co->res;
 Obj v_args = R[1];
-Obj v_2314050_25 = makeCons(co->gc, v_2314049_25, Nil);
-Obj v_2314051_25 = makeCons(co->gc, v_args, v_2314050_25);
-Obj v_2314052_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314051_25);
-coraReturn(co, v_2314052_25);
+Obj v_2314454_25 = makeCons(co->gc, v_2314453_25, Nil);
+Obj v_2314455_25 = makeCons(co->gc, v_args, v_2314454_25);
+Obj v_2314456_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314455_25);
+coraReturn(co, v_2314456_25);
 return;
 }
 case 4:
 {
-Obj v_2314048_25= co->res;
+Obj v_2314452_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314048_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314452_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313148_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313987_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313987_25) {
-Obj v_2313988_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313989_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2313988_25);
-if (True == v_2313989_25) {
-Obj v_2313990_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313991_25 = PRIM_ISCONS(v_2313990_25);
-if (True == v_2313991_25) {
-Obj v_2313992_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313993_25 = PRIM_CAR(v_2313992_25);
-Obj v_2313994_25 = PRIM_ISCONS(v_2313993_25);
-if (True == v_2313994_25) {
-Obj v_2313995_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313996_25 = PRIM_CAR(v_2313995_25);
-Obj v_2313997_25 = PRIM_CAR(v_2313996_25);
-Obj v_2313998_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313997_25);
-if (True == v_2313998_25) {
-Obj v_2313999_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314000_25 = PRIM_CAR(v_2313999_25);
-Obj v_2314001_25 = PRIM_CDR(v_2314000_25);
-Obj v_2314002_25 = PRIM_ISCONS(v_2314001_25);
-if (True == v_2314002_25) {
-Obj v_2314003_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314004_25 = PRIM_CAR(v_2314003_25);
-Obj v_2314005_25 = PRIM_CDR(v_2314004_25);
-Obj v_2314006_25 = PRIM_CAR(v_2314005_25);
-Obj v_pkg = v_2314006_25;
-Obj v_2314007_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314008_25 = PRIM_CAR(v_2314007_25);
-Obj v_2314009_25 = PRIM_CDR(v_2314008_25);
-Obj v_2314010_25 = PRIM_CDR(v_2314009_25);
-Obj v_2314011_25 = PRIM_EQ(Nil, v_2314010_25);
-if (True == v_2314011_25) {
-Obj v_2314012_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314013_25 = PRIM_CDR(v_2314012_25);
-Obj v_2314014_25 = PRIM_ISCONS(v_2314013_25);
-if (True == v_2314014_25) {
-Obj v_2314015_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314016_25 = PRIM_CDR(v_2314015_25);
-Obj v_2314017_25 = PRIM_CAR(v_2314016_25);
-Obj v_y = v_2314017_25;
-Obj v_2314018_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314019_25 = PRIM_CDR(v_2314018_25);
-Obj v_2314020_25 = PRIM_CDR(v_2314019_25);
-Obj v_2314021_25 = PRIM_EQ(Nil, v_2314020_25);
-if (True == v_2314021_25) {
-Obj v_2314022_25 = primIsString(v_pkg);
-if (True == v_2314022_25) {
-Obj v_2314023_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2314024_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314023_25);
+Obj v_2313552_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314391_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314391_25) {
+Obj v_2314392_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314393_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2314392_25);
+if (True == v_2314393_25) {
+Obj v_2314394_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314395_25 = PRIM_ISCONS(v_2314394_25);
+if (True == v_2314395_25) {
+Obj v_2314396_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314397_25 = PRIM_CAR(v_2314396_25);
+Obj v_2314398_25 = PRIM_ISCONS(v_2314397_25);
+if (True == v_2314398_25) {
+Obj v_2314399_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314400_25 = PRIM_CAR(v_2314399_25);
+Obj v_2314401_25 = PRIM_CAR(v_2314400_25);
+Obj v_2314402_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314401_25);
+if (True == v_2314402_25) {
+Obj v_2314403_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314404_25 = PRIM_CAR(v_2314403_25);
+Obj v_2314405_25 = PRIM_CDR(v_2314404_25);
+Obj v_2314406_25 = PRIM_ISCONS(v_2314405_25);
+if (True == v_2314406_25) {
+Obj v_2314407_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314408_25 = PRIM_CAR(v_2314407_25);
+Obj v_2314409_25 = PRIM_CDR(v_2314408_25);
+Obj v_2314410_25 = PRIM_CAR(v_2314409_25);
+Obj v_pkg = v_2314410_25;
+Obj v_2314411_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314412_25 = PRIM_CAR(v_2314411_25);
+Obj v_2314413_25 = PRIM_CDR(v_2314412_25);
+Obj v_2314414_25 = PRIM_CDR(v_2314413_25);
+Obj v_2314415_25 = PRIM_EQ(Nil, v_2314414_25);
+if (True == v_2314415_25) {
+Obj v_2314416_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314417_25 = PRIM_CDR(v_2314416_25);
+Obj v_2314418_25 = PRIM_ISCONS(v_2314417_25);
+if (True == v_2314418_25) {
+Obj v_2314419_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314420_25 = PRIM_CDR(v_2314419_25);
+Obj v_2314421_25 = PRIM_CAR(v_2314420_25);
+Obj v_y = v_2314421_25;
+Obj v_2314422_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314423_25 = PRIM_CDR(v_2314422_25);
+Obj v_2314424_25 = PRIM_CDR(v_2314423_25);
+Obj v_2314425_25 = PRIM_EQ(Nil, v_2314424_25);
+if (True == v_2314425_25) {
+Obj v_2314426_25 = primIsString(v_pkg);
+if (True == v_2314426_25) {
+Obj v_2314427_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2314428_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314427_25);
 R[1] = v_pkg;
 R[2] = v_y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314024_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314428_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313148_25);
+coraCall0(co, v_2313552_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314027_25= co->res;
-Obj v_2314025_25 = R[1];
-Obj v_2314028_25 = makeCons(co->gc, v_2314027_25, Nil);
-Obj v_2314029_25 = makeCons(co->gc, v_2314025_25, v_2314028_25);
-Obj v_2314030_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314029_25);
-coraReturn(co, v_2314030_25);
+Obj v_2314431_25= co->res;
+Obj v_2314429_25 = R[1];
+Obj v_2314432_25 = makeCons(co->gc, v_2314431_25, Nil);
+Obj v_2314433_25 = makeCons(co->gc, v_2314429_25, v_2314432_25);
+Obj v_2314434_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314433_25);
+coraReturn(co, v_2314434_25);
 return;
 }
 case 2:
 {
-Obj v_2314025_25= co->res;
+Obj v_2314429_25= co->res;
 Obj v_pkg = R[1];
 Obj v_y = R[2];
-Obj v_2314026_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
-R[1] = v_2314025_25;
+Obj v_2314430_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2314429_25;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314026_25, v_y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314430_25, v_y);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313149_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2313979_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313979_25) {
-Obj v_2313980_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2313980_25;
-Obj v_2313981_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2313981_25;
-Obj v_2313261_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313149_25);
-Obj v_2313985_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
-if (True == v_2313985_25) {
+Obj v_2313553_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314383_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314383_25) {
+Obj v_2314384_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2314384_25;
+Obj v_2314385_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2314385_25;
+Obj v_2313665_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313553_25);
+Obj v_2314389_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
+if (True == v_2314389_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313261_25, True);
+coraCall1(co, v_2313665_25, True);
 return;
 } else {
-Obj v_2313986_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
-if (True == v_2313986_25) {
+Obj v_2314390_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2314390_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313261_25, True);
+coraCall1(co, v_2313665_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313261_25, False);
+coraCall1(co, v_2313665_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313149_25);
+coraCall0(co, v_2313553_25);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313262_25 = R[1];
-if (True == v_2313262_25) {
+Obj v_2313666_25 = R[1];
+if (True == v_2313666_25) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj v_2313983_25= co->res;
-Obj v_2313984_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313983_25);
-coraReturn(co, v_2313984_25);
+Obj v_2314387_25= co->res;
+Obj v_2314388_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314387_25);
+coraReturn(co, v_2314388_25);
 return;
 }
 case 2:
 {
-Obj v_2313982_25= co->res;
+Obj v_2314386_25= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313982_25, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314386_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,42 +1040,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313150_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313946_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313946_25) {
-Obj v_2313947_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313948_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2313947_25);
-if (True == v_2313948_25) {
-Obj v_2313949_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313950_25 = PRIM_ISCONS(v_2313949_25);
-if (True == v_2313950_25) {
-Obj v_2313951_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313952_25 = PRIM_CAR(v_2313951_25);
-Obj v_a = v_2313952_25;
-Obj v_2313953_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313954_25 = PRIM_CDR(v_2313953_25);
-Obj v_2313955_25 = PRIM_ISCONS(v_2313954_25);
-if (True == v_2313955_25) {
-Obj v_2313956_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313957_25 = PRIM_CDR(v_2313956_25);
-Obj v_2313958_25 = PRIM_CAR(v_2313957_25);
-Obj v_b = v_2313958_25;
-Obj v_2313959_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313960_25 = PRIM_CDR(v_2313959_25);
-Obj v_2313961_25 = PRIM_CDR(v_2313960_25);
-Obj v_2313962_25 = PRIM_ISCONS(v_2313961_25);
-if (True == v_2313962_25) {
-Obj v_2313963_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313964_25 = PRIM_CDR(v_2313963_25);
-Obj v_2313965_25 = PRIM_CDR(v_2313964_25);
-Obj v_2313966_25 = PRIM_CAR(v_2313965_25);
-Obj v_c = v_2313966_25;
-Obj v_2313967_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313968_25 = PRIM_CDR(v_2313967_25);
-Obj v_2313969_25 = PRIM_CDR(v_2313968_25);
-Obj v_2313970_25 = PRIM_CDR(v_2313969_25);
-Obj v_2313971_25 = PRIM_EQ(Nil, v_2313970_25);
-if (True == v_2313971_25) {
+Obj v_2313554_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314350_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314350_25) {
+Obj v_2314351_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314352_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2314351_25);
+if (True == v_2314352_25) {
+Obj v_2314353_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314354_25 = PRIM_ISCONS(v_2314353_25);
+if (True == v_2314354_25) {
+Obj v_2314355_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314356_25 = PRIM_CAR(v_2314355_25);
+Obj v_a = v_2314356_25;
+Obj v_2314357_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314358_25 = PRIM_CDR(v_2314357_25);
+Obj v_2314359_25 = PRIM_ISCONS(v_2314358_25);
+if (True == v_2314359_25) {
+Obj v_2314360_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314361_25 = PRIM_CDR(v_2314360_25);
+Obj v_2314362_25 = PRIM_CAR(v_2314361_25);
+Obj v_b = v_2314362_25;
+Obj v_2314363_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314364_25 = PRIM_CDR(v_2314363_25);
+Obj v_2314365_25 = PRIM_CDR(v_2314364_25);
+Obj v_2314366_25 = PRIM_ISCONS(v_2314365_25);
+if (True == v_2314366_25) {
+Obj v_2314367_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314368_25 = PRIM_CDR(v_2314367_25);
+Obj v_2314369_25 = PRIM_CDR(v_2314368_25);
+Obj v_2314370_25 = PRIM_CAR(v_2314369_25);
+Obj v_c = v_2314370_25;
+Obj v_2314371_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314372_25 = PRIM_CDR(v_2314371_25);
+Obj v_2314373_25 = PRIM_CDR(v_2314372_25);
+Obj v_2314374_25 = PRIM_CDR(v_2314373_25);
+Obj v_2314375_25 = PRIM_EQ(Nil, v_2314374_25);
+if (True == v_2314375_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun88, 2, R);
@@ -1083,57 +1083,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313150_25);
+coraCall0(co, v_2313554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313150_25);
+coraCall0(co, v_2313554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313150_25);
+coraCall0(co, v_2313554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313150_25);
+coraCall0(co, v_2313554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313150_25);
+coraCall0(co, v_2313554_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313150_25);
+coraCall0(co, v_2313554_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313974_25= co->res;
-Obj v_2313972_25 = R[1];
+Obj v_2314378_25= co->res;
+Obj v_2314376_25 = R[1];
 Obj v_a = R[2];
-Obj v_2313975_25 = makeCons(co->gc, v_2313974_25, Nil);
-Obj v_2313976_25 = makeCons(co->gc, v_2313972_25, v_2313975_25);
-Obj v_2313977_25 = makeCons(co->gc, v_a, v_2313976_25);
-Obj v_2313978_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313977_25);
-coraReturn(co, v_2313978_25);
+Obj v_2314379_25 = makeCons(co->gc, v_2314378_25, Nil);
+Obj v_2314380_25 = makeCons(co->gc, v_2314376_25, v_2314379_25);
+Obj v_2314381_25 = makeCons(co->gc, v_a, v_2314380_25);
+Obj v_2314382_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314381_25);
+coraReturn(co, v_2314382_25);
 return;
 }
 case 2:
 {
-Obj v_2313972_25= co->res;
+Obj v_2314376_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2313973_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2313972_25;
+Obj v_2314377_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2314376_25;
 R[2] = v_a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2313973_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314377_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313151_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313920_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2313920_25) {
-Obj v_2313921_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2313922_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2313921_25);
-if (True == v_2313922_25) {
-Obj v_2313923_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313924_25 = PRIM_ISCONS(v_2313923_25);
-if (True == v_2313924_25) {
-Obj v_2313925_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313926_25 = PRIM_CAR(v_2313925_25);
-Obj v_path = v_2313926_25;
-Obj v_2313927_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313928_25 = PRIM_CDR(v_2313927_25);
-Obj v_2313929_25 = PRIM_ISCONS(v_2313928_25);
-if (True == v_2313929_25) {
-Obj v_2313930_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313931_25 = PRIM_CDR(v_2313930_25);
-Obj v_2313932_25 = PRIM_CAR(v_2313931_25);
-Obj v_import = v_2313932_25;
-Obj v_2313933_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313934_25 = PRIM_CDR(v_2313933_25);
-Obj v_2313935_25 = PRIM_CDR(v_2313934_25);
-Obj v_2313936_25 = PRIM_ISCONS(v_2313935_25);
-if (True == v_2313936_25) {
-Obj v_2313937_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313938_25 = PRIM_CDR(v_2313937_25);
-Obj v_2313939_25 = PRIM_CDR(v_2313938_25);
-Obj v_2313940_25 = PRIM_CAR(v_2313939_25);
-Obj v_body = v_2313940_25;
-Obj v_2313941_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2313942_25 = PRIM_CDR(v_2313941_25);
-Obj v_2313943_25 = PRIM_CDR(v_2313942_25);
-Obj v_2313944_25 = PRIM_CDR(v_2313943_25);
-Obj v_2313945_25 = PRIM_EQ(Nil, v_2313944_25);
-if (True == v_2313945_25) {
+Obj v_2313555_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314324_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2314324_25) {
+Obj v_2314325_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2314326_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2314325_25);
+if (True == v_2314326_25) {
+Obj v_2314327_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314328_25 = PRIM_ISCONS(v_2314327_25);
+if (True == v_2314328_25) {
+Obj v_2314329_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314330_25 = PRIM_CAR(v_2314329_25);
+Obj v_path = v_2314330_25;
+Obj v_2314331_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314332_25 = PRIM_CDR(v_2314331_25);
+Obj v_2314333_25 = PRIM_ISCONS(v_2314332_25);
+if (True == v_2314333_25) {
+Obj v_2314334_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314335_25 = PRIM_CDR(v_2314334_25);
+Obj v_2314336_25 = PRIM_CAR(v_2314335_25);
+Obj v_import = v_2314336_25;
+Obj v_2314337_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314338_25 = PRIM_CDR(v_2314337_25);
+Obj v_2314339_25 = PRIM_CDR(v_2314338_25);
+Obj v_2314340_25 = PRIM_ISCONS(v_2314339_25);
+if (True == v_2314340_25) {
+Obj v_2314341_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314342_25 = PRIM_CDR(v_2314341_25);
+Obj v_2314343_25 = PRIM_CDR(v_2314342_25);
+Obj v_2314344_25 = PRIM_CAR(v_2314343_25);
+Obj v_body = v_2314344_25;
+Obj v_2314345_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314346_25 = PRIM_CDR(v_2314345_25);
+Obj v_2314347_25 = PRIM_CDR(v_2314346_25);
+Obj v_2314348_25 = PRIM_CDR(v_2314347_25);
+Obj v_2314349_25 = PRIM_EQ(Nil, v_2314348_25);
+if (True == v_2314349_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313151_25);
+coraCall0(co, v_2313555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313151_25);
+coraCall0(co, v_2313555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313151_25);
+coraCall0(co, v_2313555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313151_25);
+coraCall0(co, v_2313555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313151_25);
+coraCall0(co, v_2313555_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313151_25);
+coraCall0(co, v_2313555_25);
 return;
 }
 }
@@ -1220,79 +1220,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313152_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v_2313896_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313896_25) {
-Obj v_2313897_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313898_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2313897_25);
-if (True == v_2313898_25) {
-Obj v_2313899_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313900_25 = PRIM_ISCONS(v_2313899_25);
-if (True == v_2313900_25) {
-Obj v_2313901_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313902_25 = PRIM_CAR(v_2313901_25);
-Obj v_var = v_2313902_25;
-Obj v_2313903_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313904_25 = PRIM_CDR(v_2313903_25);
-Obj v_2313905_25 = PRIM_ISCONS(v_2313904_25);
-if (True == v_2313905_25) {
-Obj v_2313906_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313907_25 = PRIM_CDR(v_2313906_25);
-Obj v_2313908_25 = PRIM_CAR(v_2313907_25);
-Obj v_val = v_2313908_25;
-Obj v_2313909_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313910_25 = PRIM_CDR(v_2313909_25);
-Obj v_2313911_25 = PRIM_CDR(v_2313910_25);
-Obj v_2313912_25 = PRIM_EQ(Nil, v_2313911_25);
-if (True == v_2313912_25) {
+Obj v_2313556_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2314300_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314300_25) {
+Obj v_2314301_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314302_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2314301_25);
+if (True == v_2314302_25) {
+Obj v_2314303_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314304_25 = PRIM_ISCONS(v_2314303_25);
+if (True == v_2314304_25) {
+Obj v_2314305_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314306_25 = PRIM_CAR(v_2314305_25);
+Obj v_var = v_2314306_25;
+Obj v_2314307_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314308_25 = PRIM_CDR(v_2314307_25);
+Obj v_2314309_25 = PRIM_ISCONS(v_2314308_25);
+if (True == v_2314309_25) {
+Obj v_2314310_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314311_25 = PRIM_CDR(v_2314310_25);
+Obj v_2314312_25 = PRIM_CAR(v_2314311_25);
+Obj v_val = v_2314312_25;
+Obj v_2314313_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314314_25 = PRIM_CDR(v_2314313_25);
+Obj v_2314315_25 = PRIM_CDR(v_2314314_25);
+Obj v_2314316_25 = PRIM_EQ(Nil, v_2314315_25);
+if (True == v_2314316_25) {
 R[1] = v_val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313152_25);
+coraCall0(co, v_2313556_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313152_25);
+coraCall0(co, v_2313556_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313152_25);
+coraCall0(co, v_2313556_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313152_25);
+coraCall0(co, v_2313556_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313152_25);
+coraCall0(co, v_2313556_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313916_25= co->res;
-Obj v_2313915_25 = R[1];
-Obj v_2313917_25 = makeCons(co->gc, v_2313916_25, Nil);
-Obj v_2313918_25 = makeCons(co->gc, v_2313915_25, v_2313917_25);
-Obj v_2313919_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2313918_25);
-coraReturn(co, v_2313919_25);
+Obj v_2314320_25= co->res;
+Obj v_2314319_25 = R[1];
+Obj v_2314321_25 = makeCons(co->gc, v_2314320_25, Nil);
+Obj v_2314322_25 = makeCons(co->gc, v_2314319_25, v_2314321_25);
+Obj v_2314323_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314322_25);
+coraReturn(co, v_2314323_25);
 return;
 }
 case 2:
 {
-Obj v_2313913_25= co->res;
+Obj v_2314317_25= co->res;
 Obj v_val = R[1];
-Obj v_var1 = v_2313913_25;
-Obj v_2313914_25 = makeCons(co->gc, v_var1, Nil);
-Obj v_2313915_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313914_25);
-R[1] = v_2313915_25;
+Obj v_var1 = v_2314317_25;
+Obj v_2314318_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2314319_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314318_25);
+R[1] = v_2314319_25;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj v_2313895_25= co->res;
+Obj v_2314299_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2313895_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314299_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj v_2313889_25= co->res;
-Obj v_2313890_25 = primNot(v_2313889_25);
-coraReturn(co, v_2313890_25);
+Obj v_2314293_25= co->res;
+Obj v_2314294_25 = primNot(v_2314293_25);
+coraReturn(co, v_2314294_25);
 return;
 }
 case 2:
 {
-Obj v_2313888_25= co->res;
+Obj v_2314292_25= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313888_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314292_25);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313135_25 = R[1];
-Obj v_2313136_25 = R[2];
-Obj v_2313873_25 = PRIM_EQ(Nil, v_2313136_25);
-if (True == v_2313873_25) {
+Obj v_2313539_25 = R[1];
+Obj v_2313540_25 = R[2];
+Obj v_2314277_25 = PRIM_EQ(Nil, v_2313540_25);
+if (True == v_2314277_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2313138_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2313136_25, v_2313135_25);
-Obj v_2313877_25 = PRIM_ISCONS(v_2313136_25);
-if (True == v_2313877_25) {
-Obj v_2313878_25 = PRIM_CAR(v_2313136_25);
-Obj v_2313879_25 = PRIM_ISCONS(v_2313878_25);
-if (True == v_2313879_25) {
-Obj v_2313880_25 = PRIM_CAR(v_2313136_25);
-Obj v_2313881_25 = PRIM_CAR(v_2313880_25);
-Obj v_x = v_2313881_25;
-Obj v_2313882_25 = PRIM_CAR(v_2313136_25);
-Obj v_2313883_25 = PRIM_CDR(v_2313882_25);
-Obj v_y = v_2313883_25;
-Obj v_2313884_25 = PRIM_CDR(v_2313136_25);
-Obj v_2313885_25 = PRIM_EQ(v_2313135_25, v_x);
-if (True == v_2313885_25) {
-Obj v_2313886_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2313886_25);
+Obj v_2313542_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2313540_25, v_2313539_25);
+Obj v_2314281_25 = PRIM_ISCONS(v_2313540_25);
+if (True == v_2314281_25) {
+Obj v_2314282_25 = PRIM_CAR(v_2313540_25);
+Obj v_2314283_25 = PRIM_ISCONS(v_2314282_25);
+if (True == v_2314283_25) {
+Obj v_2314284_25 = PRIM_CAR(v_2313540_25);
+Obj v_2314285_25 = PRIM_CAR(v_2314284_25);
+Obj v_x = v_2314285_25;
+Obj v_2314286_25 = PRIM_CAR(v_2313540_25);
+Obj v_2314287_25 = PRIM_CDR(v_2314286_25);
+Obj v_y = v_2314287_25;
+Obj v_2314288_25 = PRIM_CDR(v_2313540_25);
+Obj v_2314289_25 = PRIM_EQ(v_2313539_25, v_x);
+if (True == v_2314289_25) {
+Obj v_2314290_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2314290_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313138_25);
+coraCall0(co, v_2313542_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313138_25);
+coraCall0(co, v_2313542_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313138_25);
+coraCall0(co, v_2313542_25);
 return;
 }
 }
@@ -1397,11 +1397,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313874_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313874_25) {
-Obj v_2313875_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313876_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313876_25;
+Obj v_2314278_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314278_25) {
+Obj v_2314279_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314280_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314280_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
@@ -1418,24 +1418,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313130_25 = R[1];
-Obj v_2313131_25 = R[2];
-Obj v_2313132_25 = R[3];
-Obj v_2313792_25 = PRIM_EQ(Nil, v_2313132_25);
-if (True == v_2313792_25) {
+Obj v_2313534_25 = R[1];
+Obj v_2313535_25 = R[2];
+Obj v_2313536_25 = R[3];
+Obj v_2314196_25 = PRIM_EQ(Nil, v_2313536_25);
+if (True == v_2314196_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313130_25, v_2313131_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313534_25, v_2313535_25);
 return;
 } else {
-Obj v_2313793_25 = PRIM_ISCONS(v_2313132_25);
-if (True == v_2313793_25) {
-Obj v_2313794_25 = PRIM_CAR(v_2313132_25);
-Obj v_import = v_2313794_25;
-Obj v_2313795_25 = PRIM_CDR(v_2313132_25);
-Obj v_more = v_2313795_25;
+Obj v_2314197_25 = PRIM_ISCONS(v_2313536_25);
+if (True == v_2314197_25) {
+Obj v_2314198_25 = PRIM_CAR(v_2313536_25);
+Obj v_import = v_2314198_25;
+Obj v_2314199_25 = PRIM_CDR(v_2313536_25);
+Obj v_more = v_2314199_25;
 R[1] = v_import;
-R[2] = v_2313130_25;
-R[3] = v_2313131_25;
+R[2] = v_2313534_25;
+R[3] = v_2313535_25;
 R[4] = v_more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj v_2313802_25= co->res;
+Obj v_2314206_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313802_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314206_25);
 return;
 }
 case 2:
 {
-Obj v_2313801_25= co->res;
+Obj v_2314205_25= co->res;
 Obj v_import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2313801_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2314205_25);
 return;
 }
 case 3:
 {
-Obj v_2313800_25= co->res;
+Obj v_2314204_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313800_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314204_25);
 return;
 }
 case 4:
 {
-Obj v_2313799_25= co->res;
+Obj v_2314203_25= co->res;
 Obj v_import = R[1];
-Obj v_2313130_25 = R[2];
-Obj v_2313131_25 = R[3];
+Obj v_2313534_25 = R[2];
+Obj v_2313535_25 = R[3];
 Obj v_more = R[4];
-if (True == v_2313799_25) {
+if (True == v_2314203_25) {
 R[1] = v_import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313130_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313534_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313130_25, v_2313131_25, v_more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313534_25, v_2313535_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj v_2313798_25= co->res;
+Obj v_2314202_25= co->res;
 Obj v_import = R[1];
-Obj v_2313130_25 = R[2];
-Obj v_2313131_25 = R[3];
+Obj v_2313534_25 = R[2];
+Obj v_2313535_25 = R[3];
 Obj v_more = R[4];
-Obj v_export = v_2313798_25;
+Obj v_export = v_2314202_25;
 R[1] = v_import;
-R[2] = v_2313130_25;
-R[3] = v_2313131_25;
+R[2] = v_2313534_25;
+R[3] = v_2313535_25;
 R[4] = v_more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2313130_25, v_export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2313534_25, v_export);
 return;
 }
 case 6:
 {
-Obj v_2313797_25= co->res;
+Obj v_2314201_25= co->res;
 Obj v_import = R[1];
-Obj v_2313130_25 = R[2];
-Obj v_2313131_25 = R[3];
+Obj v_2313534_25 = R[2];
+Obj v_2313535_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2313130_25;
-R[3] = v_2313131_25;
+R[2] = v_2313534_25;
+R[3] = v_2313535_25;
 R[4] = v_more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2313797_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2314201_25, Nil);
 return;
 }
 case 7:
 {
-Obj v_2313796_25= co->res;
+Obj v_2314200_25= co->res;
 Obj v_import = R[1];
-Obj v_2313130_25 = R[2];
-Obj v_2313131_25 = R[3];
+Obj v_2313534_25 = R[2];
+Obj v_2313535_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2313130_25;
-R[3] = v_2313131_25;
+R[2] = v_2313534_25;
+R[3] = v_2313535_25;
 R[4] = v_more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313796_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314200_25);
 return;
 }
 }
@@ -1544,8 +1544,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2313786_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v_2313786_25) {
+Obj v_2314190_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2314190_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1558,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj v_2313790_25= co->res;
+Obj v_2314194_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2313790_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314194_25);
 return;
 }
 case 2:
 {
-Obj v_2313789_25= co->res;
+Obj v_2314193_25= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2313789_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2314193_25);
 return;
 }
 case 3:
 {
-Obj v_2313788_25= co->res;
+Obj v_2314192_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2313788_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314192_25);
 return;
 }
 case 4:
 {
-Obj v_2313787_25= co->res;
+Obj v_2314191_25= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v_2313787_25) {
+if (True == v_2314191_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1610,26 +1610,26 @@ return;
 }
 case 1:
 {
-Obj v_2313768_25= co->res;
+Obj v_2314172_25= co->res;
 Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2313768_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
+coraCall1(co, v_2314172_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj v_2313767_25= co->res;
+Obj v_2314171_25= co->res;
 Obj v_path = R[1];
 R[1] = v_path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2313767_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2314171_25);
 return;
 }
 case 3:
 {
-Obj v_2313766_25= co->res;
+Obj v_2314170_25= co->res;
 Obj v_sexp = R[1];
-Obj v_path = v_2313766_25;
+Obj v_path = v_2314170_25;
 R[1] = v_path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
@@ -1645,41 +1645,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2313769_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2314173_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v_2313769_25;
+R[3] = v_2314173_25;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v_2313779_25= co->res;
-Obj v_2313769_25 = R[1];
-Obj v_2313780_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2313779_25);
-Obj v_2313781_25 = makeCons(co->gc, v_2313780_25, Nil);
-Obj v_2313782_25 = makeCons(co->gc, v_2313769_25, v_2313781_25);
-Obj v_2313783_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313782_25);
-Obj v_2313784_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2313783_25);
-coraReturn(co, v_2313784_25);
+Obj v_2314183_25= co->res;
+Obj v_2314173_25 = R[1];
+Obj v_2314184_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2314183_25);
+Obj v_2314185_25 = makeCons(co->gc, v_2314184_25, Nil);
+Obj v_2314186_25 = makeCons(co->gc, v_2314173_25, v_2314185_25);
+Obj v_2314187_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314186_25);
+Obj v_2314188_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2314187_25);
+coraReturn(co, v_2314188_25);
 return;
 }
 case 2:
 {
-Obj v_2313772_25= co->res;
+Obj v_2314176_25= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v_2313769_25 = R[3];
-Obj v_2313773_25 = makeCons(co->gc, v_export, Nil);
-Obj v_2313774_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2313773_25);
-Obj v_2313775_25 = makeCons(co->gc, v_2313774_25, Nil);
-Obj v_2313776_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2313775_25);
-Obj v_2313777_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313776_25);
-Obj v_2313778_25 = makeCons(co->gc, v_2313777_25, v_body);
-R[1] = v_2313769_25;
+Obj v_2314173_25 = R[3];
+Obj v_2314177_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2314178_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2314177_25);
+Obj v_2314179_25 = makeCons(co->gc, v_2314178_25, Nil);
+Obj v_2314180_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2314179_25);
+Obj v_2314181_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2314180_25);
+Obj v_2314182_25 = makeCons(co->gc, v_2314181_25, v_body);
+R[1] = v_2314173_25;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313772_25, v_2313778_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314176_25, v_2314182_25);
 return;
 }
 }
@@ -1690,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v_2313770_25 = makeCons(co->gc, v_imp, Nil);
-Obj v_2313771_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2313770_25);
-coraReturn(co, v_2313771_25);
+Obj v_2314174_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2314175_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314174_25);
+coraReturn(co, v_2314175_25);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313123_25 = R[1];
-Obj v_2313124_25 = R[2];
-Obj v_2313125_25 = R[3];
-Obj v_2313126_25 = R[4];
-Obj v_2313127_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2313125_25, v_2313123_25, v_2313124_25, v_2313126_25);
-Obj v_2313746_25 = PRIM_ISCONS(v_2313123_25);
-if (True == v_2313746_25) {
-Obj v_2313747_25 = PRIM_CAR(v_2313123_25);
-Obj v_2313748_25 = PRIM_ISCONS(v_2313747_25);
-if (True == v_2313748_25) {
-Obj v_2313749_25 = PRIM_CAR(v_2313123_25);
-Obj v_2313750_25 = PRIM_CAR(v_2313749_25);
-Obj v_2313751_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2313750_25);
-if (True == v_2313751_25) {
-Obj v_2313752_25 = PRIM_CAR(v_2313123_25);
-Obj v_2313753_25 = PRIM_CDR(v_2313752_25);
-Obj v_2313754_25 = PRIM_ISCONS(v_2313753_25);
-if (True == v_2313754_25) {
-Obj v_2313755_25 = PRIM_CAR(v_2313123_25);
-Obj v_2313756_25 = PRIM_CDR(v_2313755_25);
-Obj v_2313757_25 = PRIM_CAR(v_2313756_25);
-Obj v_lib = v_2313757_25;
-Obj v_2313758_25 = PRIM_CAR(v_2313123_25);
-Obj v_2313759_25 = PRIM_CDR(v_2313758_25);
-Obj v_2313760_25 = PRIM_CDR(v_2313759_25);
-Obj v_2313761_25 = PRIM_EQ(Nil, v_2313760_25);
-if (True == v_2313761_25) {
-Obj v_2313762_25 = PRIM_CDR(v_2313123_25);
-Obj v_rest = v_2313762_25;
-Obj v_2313763_25 = makeCons(co->gc, v_lib, v_2313124_25);
+Obj v_2313527_25 = R[1];
+Obj v_2313528_25 = R[2];
+Obj v_2313529_25 = R[3];
+Obj v_2313530_25 = R[4];
+Obj v_2313531_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2313529_25, v_2313527_25, v_2313528_25, v_2313530_25);
+Obj v_2314150_25 = PRIM_ISCONS(v_2313527_25);
+if (True == v_2314150_25) {
+Obj v_2314151_25 = PRIM_CAR(v_2313527_25);
+Obj v_2314152_25 = PRIM_ISCONS(v_2314151_25);
+if (True == v_2314152_25) {
+Obj v_2314153_25 = PRIM_CAR(v_2313527_25);
+Obj v_2314154_25 = PRIM_CAR(v_2314153_25);
+Obj v_2314155_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314154_25);
+if (True == v_2314155_25) {
+Obj v_2314156_25 = PRIM_CAR(v_2313527_25);
+Obj v_2314157_25 = PRIM_CDR(v_2314156_25);
+Obj v_2314158_25 = PRIM_ISCONS(v_2314157_25);
+if (True == v_2314158_25) {
+Obj v_2314159_25 = PRIM_CAR(v_2313527_25);
+Obj v_2314160_25 = PRIM_CDR(v_2314159_25);
+Obj v_2314161_25 = PRIM_CAR(v_2314160_25);
+Obj v_lib = v_2314161_25;
+Obj v_2314162_25 = PRIM_CAR(v_2313527_25);
+Obj v_2314163_25 = PRIM_CDR(v_2314162_25);
+Obj v_2314164_25 = PRIM_CDR(v_2314163_25);
+Obj v_2314165_25 = PRIM_EQ(Nil, v_2314164_25);
+if (True == v_2314165_25) {
+Obj v_2314166_25 = PRIM_CDR(v_2313527_25);
+Obj v_rest = v_2314166_25;
+Obj v_2314167_25 = makeCons(co->gc, v_lib, v_2313528_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2313763_25, v_2313125_25, v_2313126_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2314167_25, v_2313529_25, v_2313530_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313127_25);
+coraCall0(co, v_2313531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313127_25);
+coraCall0(co, v_2313531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313127_25);
+coraCall0(co, v_2313531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313127_25);
+coraCall0(co, v_2313531_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313127_25);
+coraCall0(co, v_2313531_25);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313128_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2313737_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2313737_25) {
-Obj v_2313738_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313739_25 = PRIM_ISCONS(v_2313738_25);
-if (True == v_2313739_25) {
-Obj v_2313740_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313741_25 = PRIM_CAR(v_2313740_25);
-Obj v_2313742_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2313741_25);
-if (True == v_2313742_25) {
-Obj v_2313743_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313744_25 = PRIM_CDR(v_2313743_25);
-Obj v_more = v_2313744_25;
-Obj v_2313745_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_rest = v_2313745_25;
+Obj v_2313532_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314141_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2314141_25) {
+Obj v_2314142_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314143_25 = PRIM_ISCONS(v_2314142_25);
+if (True == v_2314143_25) {
+Obj v_2314144_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314145_25 = PRIM_CAR(v_2314144_25);
+Obj v_2314146_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2314145_25);
+if (True == v_2314146_25) {
+Obj v_2314147_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314148_25 = PRIM_CDR(v_2314147_25);
+Obj v_more = v_2314148_25;
+Obj v_2314149_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2314149_25;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313128_25);
+coraCall0(co, v_2313532_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313128_25);
+coraCall0(co, v_2313532_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313128_25);
+coraCall0(co, v_2313532_25);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj v_2313736_25= co->res;
+Obj v_2314140_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v_2313736_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2314140_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1848,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj v_2313734_25= co->res;
-Obj v_2313733_25 = R[1];
+Obj v_2314138_25= co->res;
+Obj v_2314137_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2313733_25, v_2313734_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2314137_25, v_2314138_25);
 return;
 }
 case 2:
 {
-Obj v_2313733_25= co->res;
+Obj v_2314137_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2313733_25;
+R[1] = v_2314137_25;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1880,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj v_2313722_25= co->res;
-Obj v_2313721_25 = R[1];
+Obj v_2314126_25= co->res;
+Obj v_2314125_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2313723_25 = makeCons(co->gc, v_2313722_25, Nil);
-Obj v_2313724_25 = makeCons(co->gc, v_2313721_25, v_2313723_25);
-Obj v_2313725_25 = makeCons(co->gc, v_fn, v_2313724_25);
-coraReturn(co, v_2313725_25);
+Obj v_2314127_25 = makeCons(co->gc, v_2314126_25, Nil);
+Obj v_2314128_25 = makeCons(co->gc, v_2314125_25, v_2314127_25);
+Obj v_2314129_25 = makeCons(co->gc, v_fn, v_2314128_25);
+coraReturn(co, v_2314129_25);
 return;
 }
 case 2:
 {
-Obj v_2313728_25= co->res;
-Obj v_2313726_25 = R[1];
+Obj v_2314132_25= co->res;
+Obj v_2314130_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2313729_25 = makeCons(co->gc, v_2313728_25, Nil);
-Obj v_2313730_25 = makeCons(co->gc, v_2313726_25, v_2313729_25);
-Obj v_2313731_25 = makeCons(co->gc, v_fn, v_2313730_25);
-coraReturn(co, v_2313731_25);
+Obj v_2314133_25 = makeCons(co->gc, v_2314132_25, Nil);
+Obj v_2314134_25 = makeCons(co->gc, v_2314130_25, v_2314133_25);
+Obj v_2314135_25 = makeCons(co->gc, v_fn, v_2314134_25);
+coraReturn(co, v_2314135_25);
 return;
 }
 case 3:
 {
-Obj v_2313720_25= co->res;
+Obj v_2314124_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v_2313720_25) {
-Obj v_2313721_25 = PRIM_CAR(v_arglist);
-R[1] = v_2313721_25;
+if (True == v_2314124_25) {
+Obj v_2314125_25 = PRIM_CAR(v_arglist);
+R[1] = v_2314125_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v_2313726_25 = PRIM_CAR(v_arglist);
-Obj v_2313727_25 = PRIM_CDR(v_arglist);
-R[1] = v_2313726_25;
+Obj v_2314130_25 = PRIM_CAR(v_arglist);
+Obj v_2314131_25 = PRIM_CDR(v_arglist);
+R[1] = v_2314130_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2313727_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2314131_25);
 return;
 }
 }
 case 4:
 {
-Obj v_2313719_25= co->res;
+Obj v_2314123_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313719_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314123_25);
 return;
 }
 }
@@ -1947,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj v_2313717_25= co->res;
+Obj v_2314121_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2313717_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2314121_25);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313118_25 = R[1];
-Obj v_2313697_25 = primIsSymbol(v_2313118_25);
-if (True == v_2313697_25) {
-Obj v_2313698_25 = makeCons(co->gc, v_2313118_25, Nil);
-Obj v_2313699_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313698_25);
-coraReturn(co, v_2313699_25);
-return;
-} else {
-Obj v_2313120_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2313118_25);
-Obj v_2313706_25 = PRIM_ISCONS(v_2313118_25);
-if (True == v_2313706_25) {
-Obj v_2313707_25 = PRIM_CAR(v_2313118_25);
-Obj v_2313708_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2313707_25);
-if (True == v_2313708_25) {
-Obj v_2313709_25 = PRIM_CDR(v_2313118_25);
-Obj v_2313710_25 = PRIM_ISCONS(v_2313709_25);
-if (True == v_2313710_25) {
-Obj v_2313711_25 = PRIM_CDR(v_2313118_25);
-Obj v_2313712_25 = PRIM_CAR(v_2313711_25);
-Obj v_x = v_2313712_25;
-Obj v_2313713_25 = PRIM_CDR(v_2313118_25);
-Obj v_2313714_25 = PRIM_CDR(v_2313713_25);
-Obj v_2313715_25 = PRIM_EQ(Nil, v_2313714_25);
-if (True == v_2313715_25) {
+Obj v_2313522_25 = R[1];
+Obj v_2314101_25 = primIsSymbol(v_2313522_25);
+if (True == v_2314101_25) {
+Obj v_2314102_25 = makeCons(co->gc, v_2313522_25, Nil);
+Obj v_2314103_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314102_25);
+coraReturn(co, v_2314103_25);
+return;
+} else {
+Obj v_2313524_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2313522_25);
+Obj v_2314110_25 = PRIM_ISCONS(v_2313522_25);
+if (True == v_2314110_25) {
+Obj v_2314111_25 = PRIM_CAR(v_2313522_25);
+Obj v_2314112_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2314111_25);
+if (True == v_2314112_25) {
+Obj v_2314113_25 = PRIM_CDR(v_2313522_25);
+Obj v_2314114_25 = PRIM_ISCONS(v_2314113_25);
+if (True == v_2314114_25) {
+Obj v_2314115_25 = PRIM_CDR(v_2313522_25);
+Obj v_2314116_25 = PRIM_CAR(v_2314115_25);
+Obj v_x = v_2314116_25;
+Obj v_2314117_25 = PRIM_CDR(v_2313522_25);
+Obj v_2314118_25 = PRIM_CDR(v_2314117_25);
+Obj v_2314119_25 = PRIM_EQ(Nil, v_2314118_25);
+if (True == v_2314119_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313120_25);
+coraCall0(co, v_2313524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313120_25);
+coraCall0(co, v_2313524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313120_25);
+coraCall0(co, v_2313524_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313120_25);
+coraCall0(co, v_2313524_25);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313700_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313700_25) {
-Obj v_2313701_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313701_25;
-Obj v_2313702_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2313702_25;
-Obj v_2313703_25 = makeCons(co->gc, v_x, v_more);
+Obj v_2314104_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314104_25) {
+Obj v_2314105_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314105_25;
+Obj v_2314106_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2314106_25;
+Obj v_2314107_25 = makeCons(co->gc, v_x, v_more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2313703_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2314107_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj v_2313704_25= co->res;
-Obj v_2313705_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313704_25);
-coraReturn(co, v_2313705_25);
+Obj v_2314108_25= co->res;
+Obj v_2314109_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314108_25);
+coraReturn(co, v_2314109_25);
 return;
 }
 }
@@ -2044,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313695_25 = PRIM_CDR(v_exp);
+Obj v_2314099_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2313695_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2314099_25);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313114_25 = R[1];
-Obj v_2313115_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2313114_25);
-Obj v_2313690_25 = PRIM_ISCONS(v_2313114_25);
-if (True == v_2313690_25) {
-Obj v_2313691_25 = PRIM_CAR(v_2313114_25);
-Obj v_x = v_2313691_25;
-Obj v_2313692_25 = PRIM_CDR(v_2313114_25);
-Obj v_2313693_25 = PRIM_EQ(Nil, v_2313692_25);
-if (True == v_2313693_25) {
+Obj v_2313518_25 = R[1];
+Obj v_2313519_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2313518_25);
+Obj v_2314094_25 = PRIM_ISCONS(v_2313518_25);
+if (True == v_2314094_25) {
+Obj v_2314095_25 = PRIM_CAR(v_2313518_25);
+Obj v_x = v_2314095_25;
+Obj v_2314096_25 = PRIM_CDR(v_2313518_25);
+Obj v_2314097_25 = PRIM_EQ(Nil, v_2314096_25);
+if (True == v_2314097_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313115_25);
+coraCall0(co, v_2313519_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313115_25);
+coraCall0(co, v_2313519_25);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313116_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v_2313678_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313678_25) {
-Obj v_2313679_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313679_25;
-Obj v_2313680_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313681_25 = PRIM_ISCONS(v_2313680_25);
-if (True == v_2313681_25) {
-Obj v_2313682_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313683_25 = PRIM_CAR(v_2313682_25);
-Obj v_y = v_2313683_25;
-Obj v_2313684_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313685_25 = PRIM_CDR(v_2313684_25);
-Obj v_2313686_25 = PRIM_EQ(Nil, v_2313685_25);
-if (True == v_2313686_25) {
-Obj v_2313687_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2313688_25 = makeCons(co->gc, v_x, v_2313687_25);
-Obj v_2313689_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313688_25);
-coraReturn(co, v_2313689_25);
+Obj v_2313520_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v_2314082_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314082_25) {
+Obj v_2314083_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314083_25;
+Obj v_2314084_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314085_25 = PRIM_ISCONS(v_2314084_25);
+if (True == v_2314085_25) {
+Obj v_2314086_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314087_25 = PRIM_CAR(v_2314086_25);
+Obj v_y = v_2314087_25;
+Obj v_2314088_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314089_25 = PRIM_CDR(v_2314088_25);
+Obj v_2314090_25 = PRIM_EQ(Nil, v_2314089_25);
+if (True == v_2314090_25) {
+Obj v_2314091_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2314092_25 = makeCons(co->gc, v_x, v_2314091_25);
+Obj v_2314093_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314092_25);
+coraReturn(co, v_2314093_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313116_25);
+coraCall0(co, v_2313520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313116_25);
+coraCall0(co, v_2313520_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313116_25);
+coraCall0(co, v_2313520_25);
 return;
 }
 }
@@ -2128,12 +2128,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313671_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313671_25) {
-Obj v_2313672_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313672_25;
-Obj v_2313673_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313673_25;
+Obj v_2314075_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314075_25) {
+Obj v_2314076_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314076_25;
+Obj v_2314077_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314077_25;
 R[1] = v_x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj v_2313674_25= co->res;
+Obj v_2314078_25= co->res;
 Obj v_x = R[1];
-Obj v_2313675_25 = makeCons(co->gc, v_2313674_25, Nil);
-Obj v_2313676_25 = makeCons(co->gc, v_x, v_2313675_25);
-Obj v_2313677_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2313676_25);
-coraReturn(co, v_2313677_25);
+Obj v_2314079_25 = makeCons(co->gc, v_2314078_25, Nil);
+Obj v_2314080_25 = makeCons(co->gc, v_x, v_2314079_25);
+Obj v_2314081_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314080_25);
+coraReturn(co, v_2314081_25);
 return;
 }
 }
@@ -2168,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj v_2313669_25= co->res;
+Obj v_2314073_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2313669_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2314073_25);
 return;
 }
 case 2:
 {
-Obj v_2313668_25= co->res;
+Obj v_2314072_25= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2313668_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2314072_25);
 return;
 }
 }
@@ -2218,25 +2218,25 @@ return;
 }
 case 1:
 {
-Obj v_2313657_25= co->res;
+Obj v_2314061_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2313658_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
-Obj v_2313659_25 = makeCons(co->gc, v_2313658_25, v_body);
-Obj v_2313660_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2313659_25);
-Obj v_2313661_25 = makeCons(co->gc, v_2313660_25, Nil);
-Obj v_2313662_25 = makeCons(co->gc, v_args, v_2313661_25);
-Obj v_2313663_25 = makeCons(co->gc, v_2313657_25, v_2313662_25);
-Obj v_2313664_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2313663_25);
-coraReturn(co, v_2313664_25);
+Obj v_2314062_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
+Obj v_2314063_25 = makeCons(co->gc, v_2314062_25, v_body);
+Obj v_2314064_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2314063_25);
+Obj v_2314065_25 = makeCons(co->gc, v_2314064_25, Nil);
+Obj v_2314066_25 = makeCons(co->gc, v_args, v_2314065_25);
+Obj v_2314067_25 = makeCons(co->gc, v_2314061_25, v_2314066_25);
+Obj v_2314068_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2314067_25);
+coraReturn(co, v_2314068_25);
 return;
 }
 case 2:
 {
-Obj v_2313656_25= co->res;
+Obj v_2314060_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_args = v_2313656_25;
+Obj v_args = v_2314060_25;
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun60, 1, R);
@@ -2245,10 +2245,10 @@ return;
 }
 case 3:
 {
-Obj v_2313655_25= co->res;
+Obj v_2314059_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_nargs = v_2313655_25;
+Obj v_nargs = v_2314059_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 2, R);
@@ -2257,9 +2257,9 @@ return;
 }
 case 4:
 {
-Obj v_2313654_25= co->res;
+Obj v_2314058_25= co->res;
 Obj v_exp = R[1];
-Obj v_body = v_2313654_25;
+Obj v_body = v_2314058_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 3, R);
@@ -2268,11 +2268,11 @@ return;
 }
 case 5:
 {
-Obj v_2313653_25= co->res;
+Obj v_2314057_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2313653_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2314057_25);
 return;
 }
 }
@@ -2283,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v_2313647_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v_2313647_25) {
+Obj v_2314051_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2314051_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2313648_25 = primGenSym(co);
-Obj v_2313649_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v_2313648_25;
+Obj v_2314052_25 = primGenSym(co);
+Obj v_2314053_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2314052_25;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2313649_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2314053_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313650_25= co->res;
-Obj v_2313648_25 = R[1];
-Obj v_2313651_25 = makeCons(co->gc, v_2313648_25, v_2313650_25);
-coraReturn(co, v_2313651_25);
+Obj v_2314054_25= co->res;
+Obj v_2314052_25 = R[1];
+Obj v_2314055_25 = makeCons(co->gc, v_2314052_25, v_2314054_25);
+coraReturn(co, v_2314055_25);
 return;
 }
 }
@@ -2318,10 +2318,10 @@ return;
 }
 case 1:
 {
-Obj v_2313644_25= co->res;
+Obj v_2314048_25= co->res;
 Obj v_n = R[1];
-Obj v_2313645_25 = primNot(v_2313644_25);
-if (True == v_2313645_25) {
+Obj v_2314049_25 = primNot(v_2314048_25);
+if (True == v_2314049_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2332,29 +2332,29 @@ return;
 }
 case 2:
 {
-Obj v_2313643_25= co->res;
+Obj v_2314047_25= co->res;
 Obj v_n = R[1];
 R[1] = v_n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313643_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314047_25);
 return;
 }
 case 3:
 {
-Obj v_2313638_25= co->res;
-Obj v_counts = v_2313638_25;
-Obj v_2313639_25 = PRIM_CAR(v_counts);
-Obj v_n = v_2313639_25;
-Obj v_2313642_25 = PRIM_CDR(v_counts);
+Obj v_2314042_25= co->res;
+Obj v_counts = v_2314042_25;
+Obj v_2314043_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2314043_25;
+Obj v_2314046_25 = PRIM_CDR(v_counts);
 R[1] = v_n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2313642_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2314046_25);
 return;
 }
 case 4:
 {
-Obj v_2313636_25= co->res;
-Obj v_pats = v_2313636_25;
+Obj v_2314040_25= co->res;
+Obj v_pats = v_2314040_25;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
 return;
@@ -2367,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313640_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v_2313641_25 = primNot(v_2313640_25);
-coraReturn(co, v_2313641_25);
+Obj v_2314044_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2314045_25 = primNot(v_2314044_25);
+coraReturn(co, v_2314045_25);
 return;
 }
 }
@@ -2380,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313637_25 = PRIM_CDR(v_x);
+Obj v_2314041_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2313637_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2314041_25);
 return;
 }
 }
@@ -2394,25 +2394,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v_2313630_25 = PRIM_EQ(v_l1, Nil);
-if (True == v_2313630_25) {
+Obj v_2314034_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2314034_25) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v_2313631_25 = PRIM_CAR(v_l1);
-Obj v_2313632_25 = PRIM_CDR(v_l1);
-R[1] = v_2313631_25;
+Obj v_2314035_25 = PRIM_CAR(v_l1);
+Obj v_2314036_25 = PRIM_CDR(v_l1);
+R[1] = v_2314035_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2313632_25, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314036_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v_2313633_25= co->res;
-Obj v_2313631_25 = R[1];
-Obj v_2313634_25 = makeCons(co->gc, v_2313631_25, v_2313633_25);
-coraReturn(co, v_2313634_25);
+Obj v_2314037_25= co->res;
+Obj v_2314035_25 = R[1];
+Obj v_2314038_25 = makeCons(co->gc, v_2314035_25, v_2314037_25);
+coraReturn(co, v_2314038_25);
 return;
 }
 }
@@ -2438,14 +2438,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v_2313621_25 = PRIM_ISCONS(v_l);
-if (True == v_2313621_25) {
-Obj v_2313622_25 = PRIM_CAR(v_l);
+Obj v_2314025_25 = PRIM_ISCONS(v_l);
+if (True == v_2314025_25) {
+Obj v_2314026_25 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v_2313622_25);
+coraCall1(co, v_fn, v_2314026_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -2455,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj v_2313623_25= co->res;
+Obj v_2314027_25= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v_2313623_25) {
-Obj v_2313624_25 = PRIM_CAR(v_l);
-Obj v_2313625_25 = makeCons(co->gc, v_2313624_25, v_res);
-Obj v_2313626_25 = PRIM_CDR(v_l);
+if (True == v_2314027_25) {
+Obj v_2314028_25 = PRIM_CAR(v_l);
+Obj v_2314029_25 = makeCons(co->gc, v_2314028_25, v_res);
+Obj v_2314030_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2313625_25, v_fn, v_2313626_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2314029_25, v_fn, v_2314030_25);
 return;
 } else {
-Obj v_2313627_25 = PRIM_CDR(v_l);
+Obj v_2314031_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2313627_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2314031_25);
 return;
 }
 }
@@ -2494,15 +2494,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v_2313616_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2313616_25) {
+Obj v_2314020_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2314020_25) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v_2313617_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v_2313618_25 = PRIM_CDR(v_l);
+Obj v_2314021_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2314022_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2313617_25, v_2313618_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2314021_25, v_2314022_25);
 return;
 }
 }
@@ -2523,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj v_2313614_25= co->res;
-Obj v_2313613_25 = R[1];
+Obj v_2314018_25= co->res;
+Obj v_2314017_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2313613_25, v_2313614_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2314017_25, v_2314018_25);
 return;
 }
 case 2:
 {
-Obj v_2313611_25= co->res;
+Obj v_2314015_25= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v_2313611_25) {
+if (True == v_2314015_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v_2313612_25 = PRIM_CAR(v_rules);
-Obj v_2313613_25 = makeCons(co->gc, v_2313612_25, v_res);
-R[1] = v_2313613_25;
+Obj v_2314016_25 = PRIM_CAR(v_rules);
+Obj v_2314017_25 = makeCons(co->gc, v_2314016_25, v_res);
+R[1] = v_2314017_25;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2569,48 +2569,48 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v_2313558_25 = PRIM_EQ(Nil, v_input);
-if (True == v_2313558_25) {
+Obj v_2313962_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2313962_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v_2313111_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v_2313576_25 = PRIM_ISCONS(v_input);
-if (True == v_2313576_25) {
-Obj v_2313577_25 = PRIM_CAR(v_input);
-Obj v_2313578_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313577_25);
-if (True == v_2313578_25) {
-Obj v_2313579_25 = PRIM_CDR(v_input);
-Obj v_2313580_25 = PRIM_ISCONS(v_2313579_25);
-if (True == v_2313580_25) {
-Obj v_2313581_25 = PRIM_CDR(v_input);
-Obj v_2313582_25 = PRIM_CAR(v_2313581_25);
-Obj v_act = v_2313582_25;
-Obj v_2313583_25 = PRIM_CDR(v_input);
-Obj v_2313584_25 = PRIM_CDR(v_2313583_25);
-Obj v_2313585_25 = PRIM_ISCONS(v_2313584_25);
-if (True == v_2313585_25) {
-Obj v_2313586_25 = PRIM_CDR(v_input);
-Obj v_2313587_25 = PRIM_CDR(v_2313586_25);
-Obj v_2313588_25 = PRIM_CAR(v_2313587_25);
-Obj v_2313589_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2313588_25);
-if (True == v_2313589_25) {
-Obj v_2313590_25 = PRIM_CDR(v_input);
-Obj v_2313591_25 = PRIM_CDR(v_2313590_25);
-Obj v_2313592_25 = PRIM_CDR(v_2313591_25);
-Obj v_2313593_25 = PRIM_ISCONS(v_2313592_25);
-if (True == v_2313593_25) {
-Obj v_2313594_25 = PRIM_CDR(v_input);
-Obj v_2313595_25 = PRIM_CDR(v_2313594_25);
-Obj v_2313596_25 = PRIM_CDR(v_2313595_25);
-Obj v_2313597_25 = PRIM_CAR(v_2313596_25);
-Obj v_pred = v_2313597_25;
-Obj v_2313598_25 = PRIM_CDR(v_input);
-Obj v_2313599_25 = PRIM_CDR(v_2313598_25);
-Obj v_2313600_25 = PRIM_CDR(v_2313599_25);
-Obj v_2313601_25 = PRIM_CDR(v_2313600_25);
-Obj v_remain = v_2313601_25;
+Obj v_2313515_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v_2313980_25 = PRIM_ISCONS(v_input);
+if (True == v_2313980_25) {
+Obj v_2313981_25 = PRIM_CAR(v_input);
+Obj v_2313982_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313981_25);
+if (True == v_2313982_25) {
+Obj v_2313983_25 = PRIM_CDR(v_input);
+Obj v_2313984_25 = PRIM_ISCONS(v_2313983_25);
+if (True == v_2313984_25) {
+Obj v_2313985_25 = PRIM_CDR(v_input);
+Obj v_2313986_25 = PRIM_CAR(v_2313985_25);
+Obj v_act = v_2313986_25;
+Obj v_2313987_25 = PRIM_CDR(v_input);
+Obj v_2313988_25 = PRIM_CDR(v_2313987_25);
+Obj v_2313989_25 = PRIM_ISCONS(v_2313988_25);
+if (True == v_2313989_25) {
+Obj v_2313990_25 = PRIM_CDR(v_input);
+Obj v_2313991_25 = PRIM_CDR(v_2313990_25);
+Obj v_2313992_25 = PRIM_CAR(v_2313991_25);
+Obj v_2313993_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2313992_25);
+if (True == v_2313993_25) {
+Obj v_2313994_25 = PRIM_CDR(v_input);
+Obj v_2313995_25 = PRIM_CDR(v_2313994_25);
+Obj v_2313996_25 = PRIM_CDR(v_2313995_25);
+Obj v_2313997_25 = PRIM_ISCONS(v_2313996_25);
+if (True == v_2313997_25) {
+Obj v_2313998_25 = PRIM_CDR(v_input);
+Obj v_2313999_25 = PRIM_CDR(v_2313998_25);
+Obj v_2314000_25 = PRIM_CDR(v_2313999_25);
+Obj v_2314001_25 = PRIM_CAR(v_2314000_25);
+Obj v_pred = v_2314001_25;
+Obj v_2314002_25 = PRIM_CDR(v_input);
+Obj v_2314003_25 = PRIM_CDR(v_2314002_25);
+Obj v_2314004_25 = PRIM_CDR(v_2314003_25);
+Obj v_2314005_25 = PRIM_CDR(v_2314004_25);
+Obj v_remain = v_2314005_25;
 R[1] = v_act;
 R[2] = v_pred;
 R[3] = v_result;
@@ -2620,52 +2620,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313111_25);
+coraCall0(co, v_2313515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313111_25);
+coraCall0(co, v_2313515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313111_25);
+coraCall0(co, v_2313515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313111_25);
+coraCall0(co, v_2313515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313111_25);
+coraCall0(co, v_2313515_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313111_25);
+coraCall0(co, v_2313515_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313602_25= co->res;
+Obj v_2314006_25= co->res;
 Obj v_act = R[1];
 Obj v_pred = R[2];
 Obj v_result = R[3];
 Obj v_remain = R[4];
-Obj v_2313603_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313602_25);
-Obj v_pat = v_2313603_25;
-Obj v_2313604_25 = makeCons(co->gc, v_act, Nil);
-Obj v_2313605_25 = makeCons(co->gc, v_pred, v_2313604_25);
-Obj v_2313606_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2313605_25);
-Obj v_2313607_25 = makeCons(co->gc, v_pat, v_result);
-Obj v_2313608_25 = makeCons(co->gc, v_2313606_25, v_2313607_25);
+Obj v_2314007_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314006_25);
+Obj v_pat = v_2314007_25;
+Obj v_2314008_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2314009_25 = makeCons(co->gc, v_pred, v_2314008_25);
+Obj v_2314010_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2314009_25);
+Obj v_2314011_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2314012_25 = makeCons(co->gc, v_2314010_25, v_2314011_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2313608_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314012_25);
 return;
 }
 }
@@ -2675,21 +2675,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313112_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2313563_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313563_25) {
-Obj v_2313564_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313565_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313564_25);
-if (True == v_2313565_25) {
-Obj v_2313566_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313567_25 = PRIM_ISCONS(v_2313566_25);
-if (True == v_2313567_25) {
-Obj v_2313568_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313569_25 = PRIM_CAR(v_2313568_25);
-Obj v_act = v_2313569_25;
-Obj v_2313570_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313571_25 = PRIM_CDR(v_2313570_25);
-Obj v_remain = v_2313571_25;
+Obj v_2313516_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2313967_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313967_25) {
+Obj v_2313968_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2313969_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313968_25);
+if (True == v_2313969_25) {
+Obj v_2313970_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313971_25 = PRIM_ISCONS(v_2313970_25);
+if (True == v_2313971_25) {
+Obj v_2313972_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313973_25 = PRIM_CAR(v_2313972_25);
+Obj v_act = v_2313973_25;
+Obj v_2313974_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313975_25 = PRIM_CDR(v_2313974_25);
+Obj v_remain = v_2313975_25;
 R[1] = v_act;
 R[2] = v_remain;
 saveCont(co, clofun47, 1, R);
@@ -2697,31 +2697,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313112_25);
+coraCall0(co, v_2313516_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313112_25);
+coraCall0(co, v_2313516_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313112_25);
+coraCall0(co, v_2313516_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313572_25= co->res;
+Obj v_2313976_25= co->res;
 Obj v_act = R[1];
 Obj v_remain = R[2];
-Obj v_2313573_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313572_25);
-Obj v_pat = v_2313573_25;
-Obj v_2313574_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
-Obj v_2313575_25 = makeCons(co->gc, v_act, v_2313574_25);
+Obj v_2313977_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313976_25);
+Obj v_pat = v_2313977_25;
+Obj v_2313978_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2313979_25 = makeCons(co->gc, v_act, v_2313978_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2313575_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2313979_25);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313559_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313559_25) {
-Obj v_2313560_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313560_25;
-Obj v_2313561_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313561_25;
-Obj v_2313562_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
+Obj v_2313963_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2313963_25) {
+Obj v_2313964_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2313964_25;
+Obj v_2313965_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2313965_25;
+Obj v_2313966_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2313562_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2313966_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2774,35 +2774,35 @@ return;
 }
 case 1:
 {
-Obj v_2313545_25= co->res;
+Obj v_2313949_25= co->res;
 Obj v_value = R[1];
-Obj v_rules = v_2313545_25;
-Obj v_2313207_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
-Obj v_2313552_25 = PRIM_ISCONS(v_value);
-if (True == v_2313552_25) {
-Obj v_2313553_25 = PRIM_CAR(v_value);
-Obj v_2313554_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2313553_25);
-Obj v_2313555_25 = primNot(v_2313554_25);
-if (True == v_2313555_25) {
+Obj v_rules = v_2313949_25;
+Obj v_2313611_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
+Obj v_2313956_25 = PRIM_ISCONS(v_value);
+if (True == v_2313956_25) {
+Obj v_2313957_25 = PRIM_CAR(v_value);
+Obj v_2313958_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2313957_25);
+Obj v_2313959_25 = primNot(v_2313958_25);
+if (True == v_2313959_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313207_25, True);
+coraCall1(co, v_2313611_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313207_25, False);
+coraCall1(co, v_2313611_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313207_25, False);
+coraCall1(co, v_2313611_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313544_25= co->res;
+Obj v_2313948_25= co->res;
 Obj v_exp = R[1];
-Obj v_value = v_2313544_25;
+Obj v_value = v_2313948_25;
 R[1] = v_value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
@@ -2810,11 +2810,11 @@ return;
 }
 case 3:
 {
-Obj v_2313543_25= co->res;
+Obj v_2313947_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2313543_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2313947_25);
 return;
 }
 }
@@ -2824,10 +2824,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313208_25 = R[1];
-if (True == v_2313208_25) {
-Obj v_2313546_25 = primGenSym(co);
-Obj v_val = v_2313546_25;
+Obj v_2313612_25 = R[1];
+if (True == v_2313612_25) {
+Obj v_2313950_25 = primGenSym(co);
+Obj v_val = v_2313950_25;
 R[1] = v_val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj v_2313547_25= co->res;
+Obj v_2313951_25= co->res;
 Obj v_val = R[1];
-Obj v_2313548_25 = makeCons(co->gc, v_2313547_25, Nil);
-Obj v_2313549_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313548_25);
-Obj v_2313550_25 = makeCons(co->gc, v_val, v_2313549_25);
-Obj v_2313551_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313550_25);
-coraReturn(co, v_2313551_25);
+Obj v_2313952_25 = makeCons(co->gc, v_2313951_25, Nil);
+Obj v_2313953_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313952_25);
+Obj v_2313954_25 = makeCons(co->gc, v_val, v_2313953_25);
+Obj v_2313955_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313954_25);
+coraReturn(co, v_2313955_25);
 return;
 }
 }
@@ -2866,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj v_2313541_25= co->res;
-Obj v_2313203_25 = R[1];
-if (True == v_2313541_25) {
+Obj v_2313945_25= co->res;
+Obj v_2313607_25 = R[1];
+if (True == v_2313945_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313203_25, True);
+coraCall1(co, v_2313607_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313203_25, False);
+coraCall1(co, v_2313607_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313539_25= co->res;
+Obj v_2313943_25= co->res;
 Obj v_rules = R[1];
-Obj v_2313203_25 = R[2];
-if (True == v_2313539_25) {
-Obj v_2313540_25 = PRIM_CDR(v_rules);
-R[1] = v_2313203_25;
+Obj v_2313607_25 = R[2];
+if (True == v_2313943_25) {
+Obj v_2313944_25 = PRIM_CDR(v_rules);
+R[1] = v_2313607_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2313540_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2313944_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313203_25, False);
+coraCall1(co, v_2313607_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2313521_25= co->res;
+Obj v_2313925_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v_2313521_25) {
-Obj v_2313522_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v_2313523_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313522_25);
-coraReturn(co, v_2313523_25);
+if (True == v_2313925_25) {
+Obj v_2313926_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2313927_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313926_25);
+coraReturn(co, v_2313927_25);
 return;
 } else {
-Obj v_2313203_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v_2313607_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v_2313203_25;
+R[2] = v_2313607_25;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2921,12 +2921,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313204_25 = R[1];
-if (True == v_2313204_25) {
-Obj v_2313524_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_pat = v_2313524_25;
-Obj v_2313525_25 = primGenSym(co);
-Obj v_cc = v_2313525_25;
+Obj v_2313608_25 = R[1];
+if (True == v_2313608_25) {
+Obj v_2313928_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2313928_25;
+Obj v_2313929_25 = primGenSym(co);
+Obj v_cc = v_2313929_25;
 R[1] = v_pat;
 R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
@@ -2940,49 +2940,49 @@ return;
 }
 case 1:
 {
-Obj v_2313531_25= co->res;
+Obj v_2313935_25= co->res;
 Obj v_curr = R[1];
 Obj v_cc = R[2];
-Obj v_rest = v_2313531_25;
-Obj v_2313532_25 = makeCons(co->gc, v_rest, Nil);
-Obj v_2313533_25 = makeCons(co->gc, Nil, v_2313532_25);
-Obj v_2313534_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313533_25);
-Obj v_2313535_25 = makeCons(co->gc, v_curr, Nil);
-Obj v_2313536_25 = makeCons(co->gc, v_2313534_25, v_2313535_25);
-Obj v_2313537_25 = makeCons(co->gc, v_cc, v_2313536_25);
-Obj v_2313538_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313537_25);
-coraReturn(co, v_2313538_25);
+Obj v_rest = v_2313935_25;
+Obj v_2313936_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2313937_25 = makeCons(co->gc, Nil, v_2313936_25);
+Obj v_2313938_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313937_25);
+Obj v_2313939_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2313940_25 = makeCons(co->gc, v_2313938_25, v_2313939_25);
+Obj v_2313941_25 = makeCons(co->gc, v_cc, v_2313940_25);
+Obj v_2313942_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313941_25);
+coraReturn(co, v_2313942_25);
 return;
 }
 case 2:
 {
-Obj v_2313528_25= co->res;
+Obj v_2313932_25= co->res;
 Obj v_cc = R[1];
-Obj v_curr = v_2313528_25;
-Obj v_2313529_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2313530_25 = PRIM_CDR(v_2313529_25);
+Obj v_curr = v_2313932_25;
+Obj v_2313933_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2313934_25 = PRIM_CDR(v_2313933_25);
 R[1] = v_curr;
 R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2313530_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2313934_25);
 return;
 }
 case 3:
 {
-Obj v_2313527_25= co->res;
+Obj v_2313931_25= co->res;
 Obj v_action = R[1];
 Obj v_cc = R[2];
 R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2313527_25, closureRef(R[0], 0), v_action, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2313931_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj v_2313526_25= co->res;
+Obj v_2313930_25= co->res;
 Obj v_pat = R[1];
 Obj v_cc = R[2];
-Obj v_action = v_2313526_25;
+Obj v_action = v_2313930_25;
 R[1] = v_action;
 R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
@@ -2998,36 +2998,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v_2313508_25 = PRIM_CDR(v_rules);
-Obj v_2313509_25 = PRIM_CAR(v_2313508_25);
-Obj v_action = v_2313509_25;
-Obj v_2313199_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+Obj v_2313912_25 = PRIM_CDR(v_rules);
+Obj v_2313913_25 = PRIM_CAR(v_2313912_25);
+Obj v_action = v_2313913_25;
+Obj v_2313603_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
 R[1] = v_action;
-R[2] = v_2313199_25;
+R[2] = v_2313603_25;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
 return;
 }
 case 1:
 {
-Obj v_2313517_25= co->res;
+Obj v_2313921_25= co->res;
 Obj v_action = R[1];
-Obj v_2313199_25 = R[2];
-if (True == v_2313517_25) {
-Obj v_2313518_25 = PRIM_CAR(v_action);
-Obj v_2313519_25 = PRIM_EQ(v_2313518_25, getBinding(co, packageID, 110).name);
-if (True == v_2313519_25) {
+Obj v_2313603_25 = R[2];
+if (True == v_2313921_25) {
+Obj v_2313922_25 = PRIM_CAR(v_action);
+Obj v_2313923_25 = PRIM_EQ(v_2313922_25, getBinding(co, packageID, 110).name);
+if (True == v_2313923_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313199_25, True);
+coraCall1(co, v_2313603_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313199_25, False);
+coraCall1(co, v_2313603_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313199_25, False);
+coraCall1(co, v_2313603_25, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313200_25 = R[1];
-if (True == v_2313200_25) {
+Obj v_2313604_25 = R[1];
+if (True == v_2313604_25) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj v_2313511_25= co->res;
-Obj v_2313510_25 = R[1];
-Obj v_2313512_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2313513_25 = makeCons(co->gc, v_2313512_25, Nil);
-Obj v_2313514_25 = makeCons(co->gc, v_2313511_25, v_2313513_25);
-Obj v_2313515_25 = makeCons(co->gc, v_2313510_25, v_2313514_25);
-Obj v_2313516_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313515_25);
-coraReturn(co, v_2313516_25);
+Obj v_2313915_25= co->res;
+Obj v_2313914_25 = R[1];
+Obj v_2313916_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2313917_25 = makeCons(co->gc, v_2313916_25, Nil);
+Obj v_2313918_25 = makeCons(co->gc, v_2313915_25, v_2313917_25);
+Obj v_2313919_25 = makeCons(co->gc, v_2313914_25, v_2313918_25);
+Obj v_2313920_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313919_25);
+coraReturn(co, v_2313920_25);
 return;
 }
 case 2:
 {
-Obj v_2313510_25= co->res;
-R[1] = v_2313510_25;
+Obj v_2313914_25= co->res;
+R[1] = v_2313914_25;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3089,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj v_2313506_25= co->res;
+Obj v_2313910_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2313506_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2313910_25);
 return;
 }
 case 2:
 {
-Obj v_2313493_25= co->res;
+Obj v_2313897_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2313493_25) {
-Obj v_2313494_25 = PRIM_CAR(v_pat);
-Obj v_2313495_25 = PRIM_EQ(v_2313494_25, getBinding(co, packageID, 139).name);
-if (True == v_2313495_25) {
-Obj v_2313496_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2313497_25 = makeCons(co->gc, v_pat, v_2313496_25);
-Obj v_2313498_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313497_25);
-Obj v_2313499_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2313500_25 = makeCons(co->gc, v_2313499_25, Nil);
-Obj v_2313501_25 = makeCons(co->gc, v_body, v_2313500_25);
-Obj v_2313502_25 = makeCons(co->gc, v_2313498_25, v_2313501_25);
-Obj v_2313503_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313502_25);
-coraReturn(co, v_2313503_25);
-return;
-} else {
-Obj v_2313504_25 = PRIM_CAR(v_pat);
-Obj v_2313505_25 = PRIM_EQ(v_2313504_25, getBinding(co, packageID, 152).name);
-if (True == v_2313505_25) {
+if (True == v_2313897_25) {
+Obj v_2313898_25 = PRIM_CAR(v_pat);
+Obj v_2313899_25 = PRIM_EQ(v_2313898_25, getBinding(co, packageID, 139).name);
+if (True == v_2313899_25) {
+Obj v_2313900_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313901_25 = makeCons(co->gc, v_pat, v_2313900_25);
+Obj v_2313902_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313901_25);
+Obj v_2313903_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313904_25 = makeCons(co->gc, v_2313903_25, Nil);
+Obj v_2313905_25 = makeCons(co->gc, v_body, v_2313904_25);
+Obj v_2313906_25 = makeCons(co->gc, v_2313902_25, v_2313905_25);
+Obj v_2313907_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313906_25);
+coraReturn(co, v_2313907_25);
+return;
+} else {
+Obj v_2313908_25 = PRIM_CAR(v_pat);
+Obj v_2313909_25 = PRIM_EQ(v_2313908_25, getBinding(co, packageID, 152).name);
+if (True == v_2313909_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3136,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj v_2313478_25= co->res;
+Obj v_2313882_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2313478_25) {
-Obj v_2313479_25 = PRIM_EQ(v_pat, v_expr);
-if (True == v_2313479_25) {
+if (True == v_2313882_25) {
+Obj v_2313883_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2313883_25) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v_2313480_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2313481_25 = makeCons(co->gc, v_pat, v_2313480_25);
-Obj v_2313482_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313481_25);
-Obj v_2313483_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2313484_25 = makeCons(co->gc, v_2313483_25, Nil);
-Obj v_2313485_25 = makeCons(co->gc, v_body, v_2313484_25);
-Obj v_2313486_25 = makeCons(co->gc, v_2313482_25, v_2313485_25);
-Obj v_2313487_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313486_25);
-coraReturn(co, v_2313487_25);
+Obj v_2313884_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313885_25 = makeCons(co->gc, v_pat, v_2313884_25);
+Obj v_2313886_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313885_25);
+Obj v_2313887_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313888_25 = makeCons(co->gc, v_2313887_25, Nil);
+Obj v_2313889_25 = makeCons(co->gc, v_body, v_2313888_25);
+Obj v_2313890_25 = makeCons(co->gc, v_2313886_25, v_2313889_25);
+Obj v_2313891_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313890_25);
+coraReturn(co, v_2313891_25);
 return;
 }
 } else {
-Obj v_2313488_25 = primIsSymbol(v_pat);
-if (True == v_2313488_25) {
-Obj v_2313489_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2313490_25 = makeCons(co->gc, v_expr, v_2313489_25);
-Obj v_2313491_25 = makeCons(co->gc, v_pat, v_2313490_25);
-Obj v_2313492_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313491_25);
-coraReturn(co, v_2313492_25);
+Obj v_2313892_25 = primIsSymbol(v_pat);
+if (True == v_2313892_25) {
+Obj v_2313893_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2313894_25 = makeCons(co->gc, v_expr, v_2313893_25);
+Obj v_2313895_25 = makeCons(co->gc, v_pat, v_2313894_25);
+Obj v_2313896_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313895_25);
+coraReturn(co, v_2313896_25);
 return;
 } else {
 R[1] = v_expr;
@@ -3193,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj v_2313475_25= co->res;
+Obj v_2313879_25= co->res;
 Obj v_x = R[1];
-if (True == v_2313475_25) {
-Obj v_2313476_25 = primIsSymbol(v_x);
-Obj v_2313477_25 = primNot(v_2313476_25);
-if (True == v_2313477_25) {
+if (True == v_2313879_25) {
+Obj v_2313880_25 = primIsSymbol(v_x);
+Obj v_2313881_25 = primNot(v_2313880_25);
+if (True == v_2313881_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3231,40 +3231,40 @@ return;
 }
 case 1:
 {
-Obj v_2313454_25= co->res;
+Obj v_2313858_25= co->res;
 Obj v_x = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_y = v_2313454_25;
-Obj v_2313193_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
-Obj v_2313471_25 = PRIM_ISCONS(v_expr);
-if (True == v_2313471_25) {
-Obj v_2313472_25 = PRIM_CAR(v_expr);
-Obj v_2313473_25 = PRIM_EQ(v_2313472_25, getBinding(co, packageID, 152).name);
-if (True == v_2313473_25) {
+Obj v_y = v_2313858_25;
+Obj v_2313597_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2313875_25 = PRIM_ISCONS(v_expr);
+if (True == v_2313875_25) {
+Obj v_2313876_25 = PRIM_CAR(v_expr);
+Obj v_2313877_25 = PRIM_EQ(v_2313876_25, getBinding(co, packageID, 152).name);
+if (True == v_2313877_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313193_25, True);
+coraCall1(co, v_2313597_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313193_25, False);
+coraCall1(co, v_2313597_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313193_25, False);
+coraCall1(co, v_2313597_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313453_25= co->res;
+Obj v_2313857_25= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_x = v_2313453_25;
+Obj v_x = v_2313857_25;
 R[1] = v_x;
 R[2] = v_body;
 R[3] = v_cc;
@@ -3280,38 +3280,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313194_25 = R[1];
-if (True == v_2313194_25) {
+Obj v_2313598_25 = R[1];
+if (True == v_2313598_25) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2313458_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313459_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313458_25);
-Obj v_2313460_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313461_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313460_25);
-Obj v_2313462_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313463_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313462_25);
-R[1] = v_2313461_25;
-R[2] = v_2313459_25;
+Obj v_2313862_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313863_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313862_25);
+Obj v_2313864_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313865_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313864_25);
+Obj v_2313866_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313867_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313866_25);
+R[1] = v_2313865_25;
+R[2] = v_2313863_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2313463_25, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2313867_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v_2313457_25= co->res;
+Obj v_2313861_25= co->res;
 Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2313457_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2313861_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v_2313456_25= co->res;
+Obj v_2313860_25= co->res;
 Obj v_e1 = R[1];
-Obj v_e2 = v_2313456_25;
+Obj v_e2 = v_2313860_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3319,8 +3319,8 @@ return;
 }
 case 3:
 {
-Obj v_2313455_25= co->res;
-Obj v_e1 = v_2313455_25;
+Obj v_2313859_25= co->res;
+Obj v_e1 = v_2313859_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3328,24 +3328,24 @@ return;
 }
 case 4:
 {
-Obj v_2313465_25= co->res;
-Obj v_2313459_25 = R[1];
-Obj v_2313466_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2313467_25 = makeCons(co->gc, v_2313466_25, Nil);
-Obj v_2313468_25 = makeCons(co->gc, v_2313465_25, v_2313467_25);
-Obj v_2313469_25 = makeCons(co->gc, v_2313459_25, v_2313468_25);
-Obj v_2313470_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313469_25);
-coraReturn(co, v_2313470_25);
+Obj v_2313869_25= co->res;
+Obj v_2313863_25 = R[1];
+Obj v_2313870_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2313871_25 = makeCons(co->gc, v_2313870_25, Nil);
+Obj v_2313872_25 = makeCons(co->gc, v_2313869_25, v_2313871_25);
+Obj v_2313873_25 = makeCons(co->gc, v_2313863_25, v_2313872_25);
+Obj v_2313874_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313873_25);
+coraReturn(co, v_2313874_25);
 return;
 }
 case 5:
 {
-Obj v_2313464_25= co->res;
-Obj v_2313461_25 = R[1];
-Obj v_2313459_25 = R[2];
-R[1] = v_2313459_25;
+Obj v_2313868_25= co->res;
+Obj v_2313865_25 = R[1];
+Obj v_2313863_25 = R[2];
+R[1] = v_2313863_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2313461_25, v_2313464_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2313865_25, v_2313868_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313451_25 = PRIM_CDR(v_exp);
+Obj v_2313855_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313451_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313855_25);
 return;
 }
 }
@@ -3369,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v_2313441_25 = PRIM_CDR(v_pat);
+Obj v_2313845_25 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313441_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313845_25);
 return;
 }
 case 1:
 {
-Obj v_2313446_25= co->res;
-Obj v_2313444_25 = R[1];
-Obj v_2313447_25 = makeCons(co->gc, v_2313446_25, Nil);
-Obj v_2313448_25 = makeCons(co->gc, v_2313444_25, v_2313447_25);
-Obj v_2313449_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313448_25);
-coraReturn(co, v_2313449_25);
+Obj v_2313850_25= co->res;
+Obj v_2313848_25 = R[1];
+Obj v_2313851_25 = makeCons(co->gc, v_2313850_25, Nil);
+Obj v_2313852_25 = makeCons(co->gc, v_2313848_25, v_2313851_25);
+Obj v_2313853_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313852_25);
+coraReturn(co, v_2313853_25);
 return;
 }
 case 2:
 {
-Obj v_2313442_25= co->res;
+Obj v_2313846_25= co->res;
 Obj v_pat = R[1];
-if (True == v_2313442_25) {
-Obj v_2313443_25 = PRIM_CAR(v_pat);
-coraReturn(co, v_2313443_25);
+if (True == v_2313846_25) {
+Obj v_2313847_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2313847_25);
 return;
 } else {
-Obj v_2313444_25 = PRIM_CAR(v_pat);
-Obj v_2313445_25 = PRIM_CDR(v_pat);
-R[1] = v_2313444_25;
+Obj v_2313848_25 = PRIM_CAR(v_pat);
+Obj v_2313849_25 = PRIM_CDR(v_pat);
+R[1] = v_2313848_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313445_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313849_25);
 return;
 }
 }
@@ -3410,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313438_25 = PRIM_EQ(v_x, True);
-if (True == v_2313438_25) {
+Obj v_2313842_25 = PRIM_EQ(v_x, True);
+if (True == v_2313842_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313439_25 = PRIM_EQ(v_x, False);
-if (True == v_2313439_25) {
+Obj v_2313843_25 = PRIM_EQ(v_x, False);
+if (True == v_2313843_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313436_25 = PRIM_CDR(v_exp);
+Obj v_2313840_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313436_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313840_25);
 return;
 }
 }
@@ -3446,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2313424_25 = PRIM_EQ(Nil, v_l);
-if (True == v_2313424_25) {
+Obj v_2313828_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2313828_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313425_25 = PRIM_CAR(v_l);
-Obj v_2313426_25 = PRIM_EQ(v_2313425_25, False);
-if (True == v_2313426_25) {
+Obj v_2313829_25 = PRIM_CAR(v_l);
+Obj v_2313830_25 = PRIM_EQ(v_2313829_25, False);
+if (True == v_2313830_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313427_25 = PRIM_CDR(v_l);
+Obj v_2313831_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313427_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313831_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313428_25= co->res;
+Obj v_2313832_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2313428_25;
-Obj v_2313429_25 = PRIM_EQ(v_more, False);
-if (True == v_2313429_25) {
+Obj v_more = v_2313832_25;
+Obj v_2313833_25 = PRIM_EQ(v_more, False);
+if (True == v_2313833_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313430_25 = PRIM_CAR(v_l);
-Obj v_2313431_25 = makeCons(co->gc, False, Nil);
-Obj v_2313432_25 = makeCons(co->gc, v_more, v_2313431_25);
-Obj v_2313433_25 = makeCons(co->gc, v_2313430_25, v_2313432_25);
-Obj v_2313434_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313433_25);
-coraReturn(co, v_2313434_25);
+Obj v_2313834_25 = PRIM_CAR(v_l);
+Obj v_2313835_25 = makeCons(co->gc, False, Nil);
+Obj v_2313836_25 = makeCons(co->gc, v_more, v_2313835_25);
+Obj v_2313837_25 = makeCons(co->gc, v_2313834_25, v_2313836_25);
+Obj v_2313838_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313837_25);
+coraReturn(co, v_2313838_25);
 return;
 }
 }
@@ -3492,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313422_25 = PRIM_CDR(v_exp);
+Obj v_2313826_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313422_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313826_25);
 return;
 }
 }
@@ -3505,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2313410_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2313410_25) {
+Obj v_2313814_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2313814_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313411_25 = PRIM_CAR(v_l);
-Obj v_2313412_25 = PRIM_EQ(v_2313411_25, True);
-if (True == v_2313412_25) {
+Obj v_2313815_25 = PRIM_CAR(v_l);
+Obj v_2313816_25 = PRIM_EQ(v_2313815_25, True);
+if (True == v_2313816_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313413_25 = PRIM_CDR(v_l);
+Obj v_2313817_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313413_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313817_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313414_25= co->res;
+Obj v_2313818_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2313414_25;
-Obj v_2313415_25 = PRIM_EQ(v_more, True);
-if (True == v_2313415_25) {
+Obj v_more = v_2313818_25;
+Obj v_2313819_25 = PRIM_EQ(v_more, True);
+if (True == v_2313819_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313416_25 = PRIM_CAR(v_l);
-Obj v_2313417_25 = makeCons(co->gc, v_more, Nil);
-Obj v_2313418_25 = makeCons(co->gc, True, v_2313417_25);
-Obj v_2313419_25 = makeCons(co->gc, v_2313416_25, v_2313418_25);
-Obj v_2313420_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313419_25);
-coraReturn(co, v_2313420_25);
+Obj v_2313820_25 = PRIM_CAR(v_l);
+Obj v_2313821_25 = makeCons(co->gc, v_more, Nil);
+Obj v_2313822_25 = makeCons(co->gc, True, v_2313821_25);
+Obj v_2313823_25 = makeCons(co->gc, v_2313820_25, v_2313822_25);
+Obj v_2313824_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313823_25);
+coraReturn(co, v_2313824_25);
 return;
 }
 }
@@ -3551,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313396_25 = PRIM_CDR(v_exp);
-Obj v_2313397_25 = PRIM_EQ(Nil, v_2313396_25);
-if (True == v_2313397_25) {
-Obj v_2313398_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v_2313399_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313398_25);
-coraReturn(co, v_2313399_25);
+Obj v_2313800_25 = PRIM_CDR(v_exp);
+Obj v_2313801_25 = PRIM_EQ(Nil, v_2313800_25);
+if (True == v_2313801_25) {
+Obj v_2313802_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2313803_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313802_25);
+coraReturn(co, v_2313803_25);
 return;
 } else {
 R[1] = v_exp;
@@ -3567,36 +3567,36 @@ return;
 }
 case 1:
 {
-Obj v_2313403_25= co->res;
-Obj v_2313402_25 = R[1];
-Obj v_2313401_25 = R[2];
-Obj v_2313404_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313403_25);
-Obj v_2313405_25 = makeCons(co->gc, v_2313404_25, Nil);
-Obj v_2313406_25 = makeCons(co->gc, v_2313402_25, v_2313405_25);
-Obj v_2313407_25 = makeCons(co->gc, v_2313401_25, v_2313406_25);
-Obj v_2313408_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313407_25);
-coraReturn(co, v_2313408_25);
+Obj v_2313807_25= co->res;
+Obj v_2313806_25 = R[1];
+Obj v_2313805_25 = R[2];
+Obj v_2313808_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313807_25);
+Obj v_2313809_25 = makeCons(co->gc, v_2313808_25, Nil);
+Obj v_2313810_25 = makeCons(co->gc, v_2313806_25, v_2313809_25);
+Obj v_2313811_25 = makeCons(co->gc, v_2313805_25, v_2313810_25);
+Obj v_2313812_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313811_25);
+coraReturn(co, v_2313812_25);
 return;
 }
 case 2:
 {
-Obj v_2313402_25= co->res;
+Obj v_2313806_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313401_25 = R[2];
-R[1] = v_2313402_25;
-R[2] = v_2313401_25;
+Obj v_2313805_25 = R[2];
+R[1] = v_2313806_25;
+R[2] = v_2313805_25;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313400_25= co->res;
+Obj v_2313804_25= co->res;
 Obj v_exp = R[1];
-Obj v_curr = v_2313400_25;
-Obj v_2313401_25 = PRIM_CAR(v_curr);
+Obj v_curr = v_2313804_25;
+Obj v_2313805_25 = PRIM_CAR(v_curr);
 R[1] = v_exp;
-R[2] = v_2313401_25;
+R[2] = v_2313805_25;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
 return;
@@ -3609,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313394_25 = PRIM_CDR(v_exp);
+Obj v_2313798_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313394_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313798_25);
 return;
 }
 }
@@ -3622,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313382_25 = PRIM_CDR(v_exp);
+Obj v_2313786_25 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313382_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313786_25);
 return;
 }
 case 1:
 {
-Obj v_2313388_25= co->res;
-Obj v_2313386_25 = R[1];
-Obj v_2313385_25 = R[2];
-Obj v_2313389_25 = makeCons(co->gc, v_2313388_25, Nil);
-Obj v_2313390_25 = makeCons(co->gc, v_2313386_25, v_2313389_25);
-Obj v_2313391_25 = makeCons(co->gc, v_2313385_25, v_2313390_25);
-Obj v_2313392_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313391_25);
-coraReturn(co, v_2313392_25);
+Obj v_2313792_25= co->res;
+Obj v_2313790_25 = R[1];
+Obj v_2313789_25 = R[2];
+Obj v_2313793_25 = makeCons(co->gc, v_2313792_25, Nil);
+Obj v_2313794_25 = makeCons(co->gc, v_2313790_25, v_2313793_25);
+Obj v_2313795_25 = makeCons(co->gc, v_2313789_25, v_2313794_25);
+Obj v_2313796_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313795_25);
+coraReturn(co, v_2313796_25);
 return;
 }
 case 2:
 {
-Obj v_2313387_25= co->res;
-Obj v_2313386_25 = R[1];
-Obj v_2313385_25 = R[2];
-R[1] = v_2313386_25;
-R[2] = v_2313385_25;
+Obj v_2313791_25= co->res;
+Obj v_2313790_25 = R[1];
+Obj v_2313789_25 = R[2];
+R[1] = v_2313790_25;
+R[2] = v_2313789_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313387_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313791_25);
 return;
 }
 case 3:
 {
-Obj v_2313386_25= co->res;
+Obj v_2313790_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313385_25 = R[2];
-R[1] = v_2313386_25;
-R[2] = v_2313385_25;
+Obj v_2313789_25 = R[2];
+R[1] = v_2313790_25;
+R[2] = v_2313789_25;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2313383_25= co->res;
+Obj v_2313787_25= co->res;
 Obj v_exp = R[1];
-if (True == v_2313383_25) {
-Obj v_2313384_25 = PRIM_CAR(v_exp);
-coraReturn(co, v_2313384_25);
+if (True == v_2313787_25) {
+Obj v_2313788_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2313788_25);
 return;
 } else {
-Obj v_2313385_25 = PRIM_CAR(v_exp);
+Obj v_2313789_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2313385_25;
+R[2] = v_2313789_25;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3687,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313379_25 = PRIM_ISCONS(v_x);
-Obj v_2313380_25 = primNot(v_2313379_25);
-coraReturn(co, v_2313380_25);
+Obj v_2313783_25 = PRIM_ISCONS(v_x);
+Obj v_2313784_25 = primNot(v_2313783_25);
+coraReturn(co, v_2313784_25);
 return;
 }
 }
@@ -3701,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v_2313374_25 = PRIM_ISCONS(v_l);
-if (True == v_2313374_25) {
-Obj v_2313375_25 = PRIM_CAR(v_l);
-Obj v_2313376_25 = PRIM_EQ(v_2313375_25, v_x);
-if (True == v_2313376_25) {
+Obj v_2313778_25 = PRIM_ISCONS(v_l);
+if (True == v_2313778_25) {
+Obj v_2313779_25 = PRIM_CAR(v_l);
+Obj v_2313780_25 = PRIM_EQ(v_2313779_25, v_x);
+if (True == v_2313780_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313377_25 = PRIM_CDR(v_l);
+Obj v_2313781_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2313377_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2313781_25);
 return;
 }
 } else {
@@ -3734,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj v_2313366_25= co->res;
-Obj v_2313365_25 = R[1];
-Obj v_2313364_25 = R[2];
-Obj v_2313367_25 = makeCons(co->gc, v_2313366_25, Nil);
-Obj v_2313368_25 = makeCons(co->gc, v_2313365_25, v_2313367_25);
-Obj v_2313369_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313368_25);
-Obj v_2313370_25 = makeCons(co->gc, v_2313369_25, Nil);
-Obj v_2313371_25 = makeCons(co->gc, v_2313364_25, v_2313370_25);
-Obj v_2313372_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313371_25);
-coraReturn(co, v_2313372_25);
+Obj v_2313770_25= co->res;
+Obj v_2313769_25 = R[1];
+Obj v_2313768_25 = R[2];
+Obj v_2313771_25 = makeCons(co->gc, v_2313770_25, Nil);
+Obj v_2313772_25 = makeCons(co->gc, v_2313769_25, v_2313771_25);
+Obj v_2313773_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313772_25);
+Obj v_2313774_25 = makeCons(co->gc, v_2313773_25, Nil);
+Obj v_2313775_25 = makeCons(co->gc, v_2313768_25, v_2313774_25);
+Obj v_2313776_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313775_25);
+coraReturn(co, v_2313776_25);
 return;
 }
 case 2:
 {
-Obj v_2313365_25= co->res;
+Obj v_2313769_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313364_25 = R[2];
-R[1] = v_2313365_25;
-R[2] = v_2313364_25;
+Obj v_2313768_25 = R[2];
+R[1] = v_2313769_25;
+R[2] = v_2313768_25;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313364_25= co->res;
+Obj v_2313768_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v_2313364_25;
+R[2] = v_2313768_25;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3775,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313362_25 = PRIM_CDR(v_exp);
+Obj v_2313766_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313362_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313766_25);
 return;
 }
 }
@@ -3795,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj v_2313354_25= co->res;
-Obj v_2313353_25 = R[1];
-Obj v_2313352_25 = R[2];
-Obj v_2313355_25 = makeCons(co->gc, v_2313353_25, v_2313354_25);
-Obj v_2313356_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313355_25);
-Obj v_2313357_25 = makeCons(co->gc, v_2313356_25, Nil);
-Obj v_2313358_25 = makeCons(co->gc, v_2313352_25, v_2313357_25);
-Obj v_2313359_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2313358_25);
-coraReturn(co, v_2313359_25);
+Obj v_2313758_25= co->res;
+Obj v_2313757_25 = R[1];
+Obj v_2313756_25 = R[2];
+Obj v_2313759_25 = makeCons(co->gc, v_2313757_25, v_2313758_25);
+Obj v_2313760_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313759_25);
+Obj v_2313761_25 = makeCons(co->gc, v_2313760_25, Nil);
+Obj v_2313762_25 = makeCons(co->gc, v_2313756_25, v_2313761_25);
+Obj v_2313763_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2313762_25);
+coraReturn(co, v_2313763_25);
 return;
 }
 case 2:
 {
-Obj v_2313353_25= co->res;
+Obj v_2313757_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313352_25 = R[2];
-R[1] = v_2313353_25;
-R[2] = v_2313352_25;
+Obj v_2313756_25 = R[2];
+R[1] = v_2313757_25;
+R[2] = v_2313756_25;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313350_25= co->res;
+Obj v_2313754_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313351_25 = makeCons(co->gc, v_2313350_25, Nil);
-Obj v_2313352_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313351_25);
+Obj v_2313755_25 = makeCons(co->gc, v_2313754_25, Nil);
+Obj v_2313756_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313755_25);
 R[1] = v_exp;
-R[2] = v_2313352_25;
+R[2] = v_2313756_25;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3837,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313332_25 = PRIM_ISCONS(v_exp);
-if (True == v_2313332_25) {
-Obj v_2313333_25 = PRIM_CAR(v_exp);
-Obj v_2313334_25 = PRIM_EQ(v_2313333_25, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v_2313334_25) {
-Obj v_2313335_25 = PRIM_CDR(v_exp);
-coraReturn(co, v_2313335_25);
-return;
-} else {
-Obj v_2313336_25 = PRIM_CAR(v_exp);
-Obj v_2313337_25 = PRIM_EQ(v_2313336_25, getBinding(co, packageID, 140).name);
-if (True == v_2313337_25) {
+Obj v_2313736_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313736_25) {
+Obj v_2313737_25 = PRIM_CAR(v_exp);
+Obj v_2313738_25 = PRIM_EQ(v_2313737_25, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v_2313738_25) {
+Obj v_2313739_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2313739_25);
+return;
+} else {
+Obj v_2313740_25 = PRIM_CAR(v_exp);
+Obj v_2313741_25 = PRIM_EQ(v_2313740_25, getBinding(co, packageID, 140).name);
+if (True == v_2313741_25) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v_2313344_25 = PRIM_CAR(v_exp);
-Obj v_2313345_25 = PRIM_EQ(v_2313344_25, getBinding(co, packageID, 139).name);
-if (True == v_2313345_25) {
+Obj v_2313748_25 = PRIM_CAR(v_exp);
+Obj v_2313749_25 = PRIM_EQ(v_2313748_25, getBinding(co, packageID, 139).name);
+if (True == v_2313749_25) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3874,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj v_2313340_25= co->res;
-Obj v_2313338_25 = R[1];
-Obj v_2313341_25 = makeCons(co->gc, v_2313340_25, Nil);
-Obj v_2313342_25 = makeCons(co->gc, v_2313338_25, v_2313341_25);
-Obj v_2313343_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313342_25);
-coraReturn(co, v_2313343_25);
+Obj v_2313744_25= co->res;
+Obj v_2313742_25 = R[1];
+Obj v_2313745_25 = makeCons(co->gc, v_2313744_25, Nil);
+Obj v_2313746_25 = makeCons(co->gc, v_2313742_25, v_2313745_25);
+Obj v_2313747_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313746_25);
+coraReturn(co, v_2313747_25);
 return;
 }
 case 2:
 {
-Obj v_2313339_25= co->res;
-Obj v_2313338_25 = R[1];
-R[1] = v_2313338_25;
+Obj v_2313743_25= co->res;
+Obj v_2313742_25 = R[1];
+R[1] = v_2313742_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2313339_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2313743_25);
 return;
 }
 case 3:
 {
-Obj v_2313338_25= co->res;
+Obj v_2313742_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2313338_25;
+R[1] = v_2313742_25;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2313347_25= co->res;
+Obj v_2313751_25= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313347_25);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313751_25);
 return;
 }
 }
@@ -3916,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v_2313346_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v_2313346_25) {
+Obj v_2313750_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2313750_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3948,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v_2313322_25 = PRIM_EQ(Nil, v_macros);
-if (True == v_2313322_25) {
+Obj v_2313726_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2313726_25) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v_2313329_25 = PRIM_CAR(v_macros);
+Obj v_2313733_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313329_25);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313733_25);
 return;
 }
 }
@@ -3967,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v_2313171_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2313325_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2313325_25) {
-Obj v_2313326_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313327_25 = PRIM_CAR(v_item);
-Obj v_2313328_25 = PRIM_EQ(v_2313326_25, v_2313327_25);
-if (True == v_2313328_25) {
+Obj v_2313575_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2313729_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313729_25) {
+Obj v_2313730_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313731_25 = PRIM_CAR(v_item);
+Obj v_2313732_25 = PRIM_EQ(v_2313730_25, v_2313731_25);
+if (True == v_2313732_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313171_25, True);
+coraCall1(co, v_2313575_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313171_25, False);
+coraCall1(co, v_2313575_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313171_25, False);
+coraCall1(co, v_2313575_25, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313172_25 = R[1];
-if (True == v_2313172_25) {
-Obj v_2313323_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313576_25 = R[1];
+if (True == v_2313576_25) {
+Obj v_2313727_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v_2313323_25, closureRef(R[0], 1));
+coraCall1(co, v_2313727_25, closureRef(R[0], 1));
 return;
 } else {
-Obj v_2313324_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313728_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2313324_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2313728_25);
 return;
 }
 }
@@ -4017,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v_2313318_25 = makeCons(co->gc, v_n, v_v);
-Obj v_2313319_25 = makeCons(co->gc, v_2313318_25, globalRef(co, getBinding(co, packageID, 146)));
-Obj v_2313320_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313319_25);
-coraReturn(co, v_2313320_25);
+Obj v_2313722_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2313723_25 = makeCons(co->gc, v_2313722_25, globalRef(co, getBinding(co, packageID, 146)));
+Obj v_2313724_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313723_25);
+coraReturn(co, v_2313724_25);
 return;
 }
 }
@@ -4046,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v_2313308_25 = PRIM_ISCONS(v_l);
-if (True == v_2313308_25) {
-Obj v_2313309_25 = PRIM_CAR(v_l);
+Obj v_2313712_25 = PRIM_ISCONS(v_l);
+if (True == v_2313712_25) {
+Obj v_2313713_25 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v_2313309_25);
+coraCall1(co, v_f, v_2313713_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -4063,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj v_2313310_25= co->res;
+Obj v_2313714_25= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v_2313311_25 = makeCons(co->gc, v_2313310_25, v_res);
-Obj v_2313312_25 = PRIM_CDR(v_l);
+Obj v_2313715_25 = makeCons(co->gc, v_2313714_25, v_res);
+Obj v_2313716_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2313311_25, v_f, v_2313312_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2313715_25, v_f, v_2313716_25);
 return;
 }
 }
@@ -4082,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v_2313301_25 = PRIM_ISCONS(v_l);
-if (True == v_2313301_25) {
-Obj v_2313302_25 = PRIM_CAR(v_l);
-Obj v_2313303_25 = makeCons(co->gc, v_2313302_25, v_res);
-Obj v_2313304_25 = PRIM_CDR(v_l);
+Obj v_2313705_25 = PRIM_ISCONS(v_l);
+if (True == v_2313705_25) {
+Obj v_2313706_25 = PRIM_CAR(v_l);
+Obj v_2313707_25 = makeCons(co->gc, v_2313706_25, v_res);
+Obj v_2313708_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2313303_25, v_2313304_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2313707_25, v_2313708_25);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313299_25 = PRIM_ISCONS(v_x);
-coraReturn(co, v_2313299_25);
+Obj v_2313703_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2313703_25);
 return;
 }
 }
@@ -4115,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313291_25 = PRIM_ISCONS(v_exp);
-if (True == v_2313291_25) {
-Obj v_2313292_25 = PRIM_CAR(v_exp);
-Obj v_2313293_25 = PRIM_CDR(v_exp);
-R[1] = v_2313292_25;
+Obj v_2313695_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313695_25) {
+Obj v_2313696_25 = PRIM_CAR(v_exp);
+Obj v_2313697_25 = PRIM_CDR(v_exp);
+R[1] = v_2313696_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313293_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313697_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj v_2313294_25= co->res;
-Obj v_2313292_25 = R[1];
-Obj v_2313295_25 = makeCons(co->gc, v_2313294_25, Nil);
-Obj v_2313296_25 = makeCons(co->gc, v_2313292_25, v_2313295_25);
-Obj v_2313297_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313296_25);
-coraReturn(co, v_2313297_25);
+Obj v_2313698_25= co->res;
+Obj v_2313696_25 = R[1];
+Obj v_2313699_25 = makeCons(co->gc, v_2313698_25, Nil);
+Obj v_2313700_25 = makeCons(co->gc, v_2313696_25, v_2313699_25);
+Obj v_2313701_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313700_25);
+coraReturn(co, v_2313701_25);
 return;
 }
 }
@@ -4146,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313287_25 = PRIM_CDR(v_x);
-Obj v_2313288_25 = PRIM_CDR(v_2313287_25);
-Obj v_2313289_25 = PRIM_CDR(v_2313288_25);
-coraReturn(co, v_2313289_25);
+Obj v_2313691_25 = PRIM_CDR(v_x);
+Obj v_2313692_25 = PRIM_CDR(v_2313691_25);
+Obj v_2313693_25 = PRIM_CDR(v_2313692_25);
+coraReturn(co, v_2313693_25);
 return;
 }
 }
@@ -4160,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313282_25 = PRIM_CDR(v_x);
-Obj v_2313283_25 = PRIM_CDR(v_2313282_25);
-Obj v_2313284_25 = PRIM_CDR(v_2313283_25);
-Obj v_2313285_25 = PRIM_CAR(v_2313284_25);
-coraReturn(co, v_2313285_25);
+Obj v_2313686_25 = PRIM_CDR(v_x);
+Obj v_2313687_25 = PRIM_CDR(v_2313686_25);
+Obj v_2313688_25 = PRIM_CDR(v_2313687_25);
+Obj v_2313689_25 = PRIM_CAR(v_2313688_25);
+coraReturn(co, v_2313689_25);
 return;
 }
 }
@@ -4175,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313278_25 = PRIM_CDR(v_x);
-Obj v_2313279_25 = PRIM_CDR(v_2313278_25);
-Obj v_2313280_25 = PRIM_CAR(v_2313279_25);
-coraReturn(co, v_2313280_25);
+Obj v_2313682_25 = PRIM_CDR(v_x);
+Obj v_2313683_25 = PRIM_CDR(v_2313682_25);
+Obj v_2313684_25 = PRIM_CAR(v_2313683_25);
+coraReturn(co, v_2313684_25);
 return;
 }
 }
@@ -4189,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313275_25 = PRIM_CDR(v_x);
-Obj v_2313276_25 = PRIM_CDR(v_2313275_25);
-coraReturn(co, v_2313276_25);
+Obj v_2313679_25 = PRIM_CDR(v_x);
+Obj v_2313680_25 = PRIM_CDR(v_2313679_25);
+coraReturn(co, v_2313680_25);
 return;
 }
 }
@@ -4202,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313272_25 = PRIM_CAR(v_x);
-Obj v_2313273_25 = PRIM_CDR(v_2313272_25);
-coraReturn(co, v_2313273_25);
+Obj v_2313676_25 = PRIM_CAR(v_x);
+Obj v_2313677_25 = PRIM_CDR(v_2313676_25);
+coraReturn(co, v_2313677_25);
 return;
 }
 }
@@ -4215,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313269_25 = PRIM_CAR(v_x);
-Obj v_2313270_25 = PRIM_CAR(v_2313269_25);
-coraReturn(co, v_2313270_25);
+Obj v_2313673_25 = PRIM_CAR(v_x);
+Obj v_2313674_25 = PRIM_CAR(v_2313673_25);
+coraReturn(co, v_2313674_25);
 return;
 }
 }
@@ -4228,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313266_25 = PRIM_CDR(v_x);
-Obj v_2313267_25 = PRIM_CAR(v_2313266_25);
-coraReturn(co, v_2313267_25);
+Obj v_2313670_25 = PRIM_CDR(v_x);
+Obj v_2313671_25 = PRIM_CAR(v_2313670_25);
+coraReturn(co, v_2313671_25);
 return;
 }
 }
@@ -4241,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313264_25 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v_2313264_25);
+Obj v_2313668_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2313668_25);
 return;
 }
 }
diff --git a/lib/peval.cora b/lib/peval.cora
index a9bf083..89584eb 100644
--- a/lib/peval.cora
+++ b/lib/peval.cora
@@ -23,10 +23,26 @@
 	       ['cons _ ()] => 1
 	       ['cons _ more] => (+ 1 (const-list-length more)))
 
-	 (defun shrink-env (params env)
-	   (filter (lambda (kv)
-		     (not (member (car kv) params)))
-		   env))
+	 ;; env maps each variable in scope to what replaces it, often the variable itself.
+	 ;; A binder that would capture a variable of a replacement is renamed.
+	 (func captured?
+	       x [] => false
+	       x [[y . exp] . more] => (captured? x more) where (= x y)
+	       x [[y . exp] . more] => (or (> (ref-count x exp) 0)
+					   (captured? x more)))
+
+	 (defun rename-binder (x env)
+	   (if (or (member x ['car 'cdr 'cons 'cons? 'null? 'and 'not '+ '-])
+		   (captured? x env))
+	       (gensym)
+	       x))
+
+	 (func rename-params
+	       [] env k => (k () env)
+	       [x . more] env k => (let y (rename-binder x env)
+					(rename-params more (cons (cons x y) env)
+						       (lambda (params env1)
+							 (k (cons y params) env1)))))
 
 	 (func peval
 	       env x => (let find (assq x env)
@@ -43,7 +59,9 @@
 				     (if (and (cons? a1) (= (car a1) 'lambda))
 					 (peval env b)
 					 ['do a1 (peval env b)]))
-	       env ['lambda params body] => ['lambda params (peval (shrink-env params env) body)]
+	       env ['lambda params body] => (rename-params params env
+							    (lambda (params1 env1)
+							      ['lambda params1 (peval env1 body)]))
 	       env ['let a b c] => (peval-let a (peval env b) c env)
 	       env [f . args] => (peval-app (map (peval env) [f . args]) env)
 	       env x => x)
@@ -69,9 +87,16 @@
 	       (const? exp)
 	       (const-list? exp)))
 
+	 (defun local? (x env)
+	   (and (symbol? x) (exist-value? x env)))
+
+	 (func exist-value?
+	       x [] => false
+	       x [[_ . y] . more] => (or (= x y) (exist-value? x more)))
+
 	 (defun peval-let (var val body env)
 	   (if (or (const? val)            ;; val is const
-		   (symbol? val)           ;; val is symbol
+		   (local? val env)         ;; val is a local variable, a global one may be set later
 		   (and (const-list? val) (< (const-list-length val) 3))) ;; val is short const list
 	       (peval [(cons var val) . env] body)
 	       (let refs (ref-count var body)
@@ -82,7 +107,8 @@
 			   ['do val (peval env body)]))
 		      ((and (= refs 1) safe) ;; var is used exactly once and val is side effect free
 		       (peval [(cons var val) . env] body))
-		      (true ['let var val (peval (shrink-env [var] env) body)])))))
+		      (true (let var1 (rename-binder var env)
+				 ['let var1 val (peval (cons (cons var var1) env) body)]))))))
 		      
 	 ;; collect the static const to env
 	 (defun extend-env (params args env k)
@@ -95,26 +121,31 @@
 	       retp reta [] args env k => (k (reverse retp) (append (reverse reta) args) env)
 	       retp reta params [] env k => (k (append (reverse retp) params) (reverse reta) env))
 
+	 (defun discardable? (exp)
+	   (or (symbol? exp) (side-effect-free? exp)))
+
 	 (func peval-apply-lambda
 	       [] [] body => body
 	       params [] body => ['lambda params body]
 	       params args body => [['lambda params body] . args])
 
 	 (func peval-app
-	       ['cons? ['cons _ _]] env => true
-	       ['car ['cons x _]] env => x
-	       ['cdr ['cons _ x]] env => x
+	       ['cons? ['cons x y]] env => true where (and (discardable? x) (discardable? y))
+	       ['car ['cons x y]] env => x where (discardable? y)
+	       ['cdr ['cons y x]] env => x where (discardable? y)
 	       ['and true true] env => true
 	       ['null? ()] env => true
-	       ['null? ['cons _ _]] env => false
+	       ['null? ['cons x y]] env => false where (and (discardable? x) (discardable? y))
 	       ['not true] env => false
 	       ['not false] env => true
 	       ['+ x y] env => (+ x y) where (and (number? x) (number? y))
 	       ['- x y] env => (- x y) where (and (number? x) (number? y))
-	       [['lambda params body] . args] env => (extend-env params args env
+	       ;; env is already applied to the lambda and its arguments
+	       [['lambda params body] . args] env => (extend-env params args ()
 								 (lambda (params1 args1 env1)
-								   (let body1 (peval (shrink-env params1 env1) body)
-									(peval-apply-lambda params1 args1 body1))))
+								   (rename-params params1 env1
+										  (lambda (params2 env2)
+										    (peval-apply-lambda params2 args1 (peval env2 body))))))
 	       x env => x)
 
 	 ;; (peval () `(let example1 (lambda (a b c)
diff --git a/lib/toc.c b/lib/toc.c
index 8844c62..f902573 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -312,156 +312,156 @@ return;
 }
 case 1:
 {
-Obj v_2319186_25= co->res;
-Obj v_2319192_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun118, 2, 0));
-Obj v_2319198_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun119, 2, 0));
-Obj v_2319220_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun121, 3, 0));
-Obj v_2319243_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun123, 4, 0));
-Obj v_2319256_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun126, 3, 0));
-Obj v_2319297_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun131, 1, 0));
-Obj v_2319336_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun134, 4, 0));
-Obj v_2319388_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun139, 2, 0));
-Obj v_2319389_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun140, 2, 0));
-Obj v_2319403_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun148, 1, 0));
-Obj v_2319404_25 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v_2319417_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun150, 1, 0));
-Obj v_2319427_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun151, 2, 0));
-coraReturn(co, v_2319427_25);
+Obj v_2319590_25= co->res;
+Obj v_2319596_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun118, 2, 0));
+Obj v_2319602_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun119, 2, 0));
+Obj v_2319624_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun121, 3, 0));
+Obj v_2319647_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun123, 4, 0));
+Obj v_2319660_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun126, 3, 0));
+Obj v_2319701_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun131, 1, 0));
+Obj v_2319740_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun134, 4, 0));
+Obj v_2319792_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun139, 2, 0));
+Obj v_2319793_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun140, 2, 0));
+Obj v_2319807_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun148, 1, 0));
+Obj v_2319808_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2319821_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun150, 1, 0));
+Obj v_2319831_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun151, 2, 0));
+coraReturn(co, v_2319831_25);
 return;
 }
 case 2:
 {
-Obj v_2317745_25= co->res;
-Obj v_2317746_25 = primSet(co, getBinding(co, packageID, 134).name, Nil);
-Obj v_2317761_25 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v_2317767_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v_2317777_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v_2317778_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v_2317785_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2317786_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2317787_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317786_25);
-Obj v_2317788_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2317787_25);
-Obj v_2317789_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2317790_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317789_25);
-Obj v_2317791_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2317790_25);
-Obj v_2317792_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2317793_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317792_25);
-Obj v_2317794_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2317793_25);
-Obj v_2317795_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2317796_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317795_25);
-Obj v_2317797_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2317796_25);
-Obj v_2317798_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2317799_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317798_25);
-Obj v_2317800_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2317799_25);
-Obj v_2317801_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2317802_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317801_25);
-Obj v_2317803_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2317802_25);
-Obj v_2317804_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2317805_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317804_25);
-Obj v_2317806_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2317805_25);
-Obj v_2317807_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2317808_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317807_25);
-Obj v_2317809_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2317808_25);
-Obj v_2317810_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2317811_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317810_25);
-Obj v_2317812_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2317811_25);
-Obj v_2317813_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2317814_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317813_25);
-Obj v_2317815_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2317814_25);
-Obj v_2317816_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2317817_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317816_25);
-Obj v_2317818_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2317817_25);
-Obj v_2317819_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2317820_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2317819_25);
-Obj v_2317821_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2317820_25);
-Obj v_2317822_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2317823_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2317822_25);
-Obj v_2317824_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2317823_25);
-Obj v_2317825_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2317826_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317825_25);
-Obj v_2317827_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2317826_25);
-Obj v_2317828_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2317829_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317828_25);
-Obj v_2317830_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2317829_25);
-Obj v_2317831_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2317832_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317831_25);
-Obj v_2317833_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2317832_25);
-Obj v_2317834_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2317835_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2317834_25);
-Obj v_2317836_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2317835_25);
-Obj v_2317837_25 = makeCons(co->gc, v_2317836_25, Nil);
-Obj v_2317838_25 = makeCons(co->gc, v_2317833_25, v_2317837_25);
-Obj v_2317839_25 = makeCons(co->gc, v_2317830_25, v_2317838_25);
-Obj v_2317840_25 = makeCons(co->gc, v_2317827_25, v_2317839_25);
-Obj v_2317841_25 = makeCons(co->gc, v_2317824_25, v_2317840_25);
-Obj v_2317842_25 = makeCons(co->gc, v_2317821_25, v_2317841_25);
-Obj v_2317843_25 = makeCons(co->gc, v_2317818_25, v_2317842_25);
-Obj v_2317844_25 = makeCons(co->gc, v_2317815_25, v_2317843_25);
-Obj v_2317845_25 = makeCons(co->gc, v_2317812_25, v_2317844_25);
-Obj v_2317846_25 = makeCons(co->gc, v_2317809_25, v_2317845_25);
-Obj v_2317847_25 = makeCons(co->gc, v_2317806_25, v_2317846_25);
-Obj v_2317848_25 = makeCons(co->gc, v_2317803_25, v_2317847_25);
-Obj v_2317849_25 = makeCons(co->gc, v_2317800_25, v_2317848_25);
-Obj v_2317850_25 = makeCons(co->gc, v_2317797_25, v_2317849_25);
-Obj v_2317851_25 = makeCons(co->gc, v_2317794_25, v_2317850_25);
-Obj v_2317852_25 = makeCons(co->gc, v_2317791_25, v_2317851_25);
-Obj v_2317853_25 = makeCons(co->gc, v_2317788_25, v_2317852_25);
-Obj v_2317854_25 = primSet(co, getBinding(co, packageID, 127).name, v_2317853_25);
-Obj v_2317858_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2317861_25 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2317864_25 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2317869_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v_2317882_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun11, 1, 0));
-Obj v_2317893_25 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 4, clofun14, 3, 0));
-Obj v_2317903_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun16, 3, 0));
-Obj v_2317920_25 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 4, clofun17, 2, 0));
-Obj v_2318120_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun28, 4, 0));
-Obj v_2318131_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun30, 2, 0));
-Obj v_2318142_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun32, 2, 0));
-Obj v_2318203_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun39, 1, 0));
-Obj v_2318378_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2318451_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun52, 2, 0));
-Obj v_2318454_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun53, 1, 0));
-Obj v_2318591_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj v_2318614_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj v_2318691_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun69, 2, 0));
-Obj v_2318722_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun73, 3, 0));
-Obj v_2318728_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun76, 4, 0));
-Obj v_2318733_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun78, 2, 0));
-Obj v_2318742_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun80, 1, 0));
-Obj v_2318793_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun82, 2, 0));
-Obj v_2318801_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun83, 2, 0));
-Obj v_2318808_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun84, 2, 0));
-Obj v_2318813_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun85, 2, 0));
-Obj v_2318819_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun86, 3, 0));
-Obj v_2318820_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun87, 2, 0));
-Obj v_2318827_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun89, 5, 0));
-Obj v_2318834_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun91, 5, 0));
-Obj v_2319121_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun104, 5, 0));
-Obj v_2319135_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun106, 5, 0));
-Obj v_2319157_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun108, 5, 0));
-Obj v_2319159_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun109, 2, 0));
-Obj v_2319163_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj v_2319166_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj v_2319167_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun112, 1, 0));
-Obj v_2319168_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun113, 1, 0));
-Obj v_2319169_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun114, 1, 0));
-Obj v_2319176_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun115, 1, 0));
-Obj v_2319183_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun116, 2, 0));
+Obj v_2318149_25= co->res;
+Obj v_2318150_25 = primSet(co, getBinding(co, packageID, 134).name, Nil);
+Obj v_2318165_25 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2318171_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2318181_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2318182_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2318189_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2318190_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2318191_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318190_25);
+Obj v_2318192_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2318191_25);
+Obj v_2318193_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2318194_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318193_25);
+Obj v_2318195_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2318194_25);
+Obj v_2318196_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2318197_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318196_25);
+Obj v_2318198_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2318197_25);
+Obj v_2318199_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2318200_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318199_25);
+Obj v_2318201_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2318200_25);
+Obj v_2318202_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2318203_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318202_25);
+Obj v_2318204_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2318203_25);
+Obj v_2318205_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2318206_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318205_25);
+Obj v_2318207_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2318206_25);
+Obj v_2318208_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2318209_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318208_25);
+Obj v_2318210_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2318209_25);
+Obj v_2318211_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2318212_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318211_25);
+Obj v_2318213_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2318212_25);
+Obj v_2318214_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2318215_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318214_25);
+Obj v_2318216_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2318215_25);
+Obj v_2318217_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2318218_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318217_25);
+Obj v_2318219_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2318218_25);
+Obj v_2318220_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2318221_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318220_25);
+Obj v_2318222_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2318221_25);
+Obj v_2318223_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2318224_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318223_25);
+Obj v_2318225_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2318224_25);
+Obj v_2318226_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2318227_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2318226_25);
+Obj v_2318228_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2318227_25);
+Obj v_2318229_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2318230_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318229_25);
+Obj v_2318231_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2318230_25);
+Obj v_2318232_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2318233_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318232_25);
+Obj v_2318234_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2318233_25);
+Obj v_2318235_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2318236_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318235_25);
+Obj v_2318237_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2318236_25);
+Obj v_2318238_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2318239_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318238_25);
+Obj v_2318240_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2318239_25);
+Obj v_2318241_25 = makeCons(co->gc, v_2318240_25, Nil);
+Obj v_2318242_25 = makeCons(co->gc, v_2318237_25, v_2318241_25);
+Obj v_2318243_25 = makeCons(co->gc, v_2318234_25, v_2318242_25);
+Obj v_2318244_25 = makeCons(co->gc, v_2318231_25, v_2318243_25);
+Obj v_2318245_25 = makeCons(co->gc, v_2318228_25, v_2318244_25);
+Obj v_2318246_25 = makeCons(co->gc, v_2318225_25, v_2318245_25);
+Obj v_2318247_25 = makeCons(co->gc, v_2318222_25, v_2318246_25);
+Obj v_2318248_25 = makeCons(co->gc, v_2318219_25, v_2318247_25);
+Obj v_2318249_25 = makeCons(co->gc, v_2318216_25, v_2318248_25);
+Obj v_2318250_25 = makeCons(co->gc, v_2318213_25, v_2318249_25);
+Obj v_2318251_25 = makeCons(co->gc, v_2318210_25, v_2318250_25);
+Obj v_2318252_25 = makeCons(co->gc, v_2318207_25, v_2318251_25);
+Obj v_2318253_25 = makeCons(co->gc, v_2318204_25, v_2318252_25);
+Obj v_2318254_25 = makeCons(co->gc, v_2318201_25, v_2318253_25);
+Obj v_2318255_25 = makeCons(co->gc, v_2318198_25, v_2318254_25);
+Obj v_2318256_25 = makeCons(co->gc, v_2318195_25, v_2318255_25);
+Obj v_2318257_25 = makeCons(co->gc, v_2318192_25, v_2318256_25);
+Obj v_2318258_25 = primSet(co, getBinding(co, packageID, 127).name, v_2318257_25);
+Obj v_2318262_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2318265_25 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2318268_25 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2318273_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2318286_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun11, 1, 0));
+Obj v_2318297_25 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 4, clofun14, 3, 0));
+Obj v_2318307_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun16, 3, 0));
+Obj v_2318324_25 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 4, clofun17, 2, 0));
+Obj v_2318524_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun28, 4, 0));
+Obj v_2318535_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun30, 2, 0));
+Obj v_2318546_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun32, 2, 0));
+Obj v_2318607_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun39, 1, 0));
+Obj v_2318782_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2318855_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun52, 2, 0));
+Obj v_2318858_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun53, 1, 0));
+Obj v_2318995_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj v_2319018_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun65, 3, 0));
+Obj v_2319095_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun69, 2, 0));
+Obj v_2319126_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun73, 3, 0));
+Obj v_2319132_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun76, 4, 0));
+Obj v_2319137_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun78, 2, 0));
+Obj v_2319146_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun80, 1, 0));
+Obj v_2319197_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun82, 2, 0));
+Obj v_2319205_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun83, 2, 0));
+Obj v_2319212_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun84, 2, 0));
+Obj v_2319217_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun85, 2, 0));
+Obj v_2319223_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun86, 3, 0));
+Obj v_2319224_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun87, 2, 0));
+Obj v_2319231_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun89, 5, 0));
+Obj v_2319238_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun91, 5, 0));
+Obj v_2319525_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun104, 5, 0));
+Obj v_2319539_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun106, 5, 0));
+Obj v_2319561_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun108, 5, 0));
+Obj v_2319563_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun109, 2, 0));
+Obj v_2319567_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj v_2319570_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v_2319571_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun112, 1, 0));
+Obj v_2319572_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun113, 1, 0));
+Obj v_2319573_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun114, 1, 0));
+Obj v_2319580_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun115, 1, 0));
+Obj v_2319587_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun116, 2, 0));
 saveCont(co, clofun152, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun117, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2317744_25= co->res;
+Obj v_2318148_25= co->res;
 saveCont(co, clofun152, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v_2317743_25= co->res;
+Obj v_2318147_25= co->res;
 saveCont(co, clofun152, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -475,9 +475,9 @@ case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v_2319418_25 = primGenSym(co);
-Obj v_globals = v_2319418_25;
-Obj v_2319419_25 = primSet(co, v_globals, Nil);
+Obj v_2319822_25 = primGenSym(co);
+Obj v_globals = v_2319822_25;
+Obj v_2319823_25 = primSet(co, v_globals, Nil);
 R[1] = v_from;
 R[2] = v_to;
 R[3] = v_globals;
@@ -487,7 +487,7 @@ return;
 }
 case 1:
 {
-Obj v_2319426_25= co->res;
+Obj v_2319830_25= co->res;
 Obj v_stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
@@ -495,20 +495,20 @@ return;
 }
 case 2:
 {
-Obj v_2319425_25= co->res;
+Obj v_2319829_25= co->res;
 Obj v_bc = R[1];
 Obj v_stream = R[2];
 R[1] = v_stream;
 saveCont(co, clofun151, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2319425_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2319829_25);
 return;
 }
 case 3:
 {
-Obj v_2319424_25= co->res;
+Obj v_2319828_25= co->res;
 Obj v_globals = R[1];
 Obj v_bc = R[2];
-Obj v_stream = v_2319424_25;
+Obj v_stream = v_2319828_25;
 R[1] = v_bc;
 R[2] = v_stream;
 saveCont(co, clofun151, 2, R);
@@ -517,10 +517,10 @@ return;
 }
 case 4:
 {
-Obj v_2319423_25= co->res;
+Obj v_2319827_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_bc = v_2319423_25;
+Obj v_bc = v_2319827_25;
 R[1] = v_globals;
 R[2] = v_bc;
 saveCont(co, clofun151, 3, R);
@@ -529,36 +529,36 @@ return;
 }
 case 5:
 {
-Obj v_2319422_25= co->res;
-Obj v_2319420_25 = R[1];
+Obj v_2319826_25= co->res;
+Obj v_2319824_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 saveCont(co, clofun151, 4, R);
-coraCall1(co, v_2319420_25, v_2319422_25);
+coraCall1(co, v_2319824_25, v_2319826_25);
 return;
 }
 case 6:
 {
-Obj v_2319421_25= co->res;
-Obj v_2319420_25 = R[1];
+Obj v_2319825_25= co->res;
+Obj v_2319824_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2319420_25;
+R[1] = v_2319824_25;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun151, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2319421_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2319825_25);
 return;
 }
 case 7:
 {
-Obj v_2319420_25= co->res;
+Obj v_2319824_25= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2319420_25;
+R[1] = v_2319824_25;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun151, 6, R);
@@ -579,7 +579,7 @@ return;
 }
 case 1:
 {
-Obj v_2319412_25= co->res;
+Obj v_2319816_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -587,7 +587,7 @@ return;
 }
 case 2:
 {
-Obj v_2319411_25= co->res;
+Obj v_2319815_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun150, 1, R);
@@ -596,7 +596,7 @@ return;
 }
 case 3:
 {
-Obj v_2319414_25= co->res;
+Obj v_2319818_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -604,7 +604,7 @@ return;
 }
 case 4:
 {
-Obj v_2319413_25= co->res;
+Obj v_2319817_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun150, 3, R);
@@ -613,7 +613,7 @@ return;
 }
 case 5:
 {
-Obj v_2319416_25= co->res;
+Obj v_2319820_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -621,7 +621,7 @@ return;
 }
 case 6:
 {
-Obj v_2319415_25= co->res;
+Obj v_2319819_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun150, 5, R);
@@ -630,36 +630,36 @@ return;
 }
 case 7:
 {
-Obj v_2319408_25= co->res;
-Obj v_2317739_25 = R[1];
+Obj v_2319812_25= co->res;
+Obj v_2318143_25 = R[1];
 Obj v_sexp = R[2];
-if (True == v_2319408_25) {
-Obj v_2319409_25 = PRIM_CAR(v_sexp);
-Obj v_2319410_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319409_25);
-if (True == v_2319410_25) {
+if (True == v_2319812_25) {
+Obj v_2319813_25 = PRIM_CAR(v_sexp);
+Obj v_2319814_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319813_25);
+if (True == v_2319814_25) {
 R[1] = v_sexp;
 saveCont(co, clofun150, 2, R);
-coraCall1(co, v_2317739_25, True);
+coraCall1(co, v_2318143_25, True);
 return;
 } else {
 R[1] = v_sexp;
 saveCont(co, clofun150, 4, R);
-coraCall1(co, v_2317739_25, False);
+coraCall1(co, v_2318143_25, False);
 return;
 }
 } else {
 R[1] = v_sexp;
 saveCont(co, clofun150, 6, R);
-coraCall1(co, v_2317739_25, False);
+coraCall1(co, v_2318143_25, False);
 return;
 }
 }
 case 8:
 {
-Obj v_2319405_25= co->res;
-Obj v_sexp = v_2319405_25;
-Obj v_2317739_25 = makeNative(co->gc, 2, clofun149, 1, 1, v_sexp);
-R[1] = v_2317739_25;
+Obj v_2319809_25= co->res;
+Obj v_sexp = v_2319809_25;
+Obj v_2318143_25 = makeNative(co->gc, 2, clofun149, 1, 1, v_sexp);
+R[1] = v_2318143_25;
 R[2] = v_sexp;
 saveCont(co, clofun150, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_sexp);
@@ -672,14 +672,14 @@ static void clofun149(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317740_25 = R[1];
-if (True == v_2317740_25) {
-Obj v_2319406_25 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v_2319406_25);
+Obj v_2318144_25 = R[1];
+if (True == v_2318144_25) {
+Obj v_2319810_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2319810_25);
 return;
 } else {
-Obj v_2319407_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v_2319407_25);
+Obj v_2319811_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2319811_25);
 return;
 }
 }
@@ -690,27 +690,27 @@ static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317572_25 = R[1];
-Obj v_2317573_25 = makeNative(co->gc, 1, clofun145, 0, 1, v_2317572_25);
-Obj v_2319398_25 = PRIM_ISCONS(v_2317572_25);
-if (True == v_2319398_25) {
-Obj v_2319399_25 = PRIM_CAR(v_2317572_25);
-Obj v_2319400_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319399_25);
-if (True == v_2319400_25) {
-Obj v_2319401_25 = PRIM_CDR(v_2317572_25);
-Obj v_more = v_2319401_25;
-Obj v_2319402_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
+Obj v_2317976_25 = R[1];
+Obj v_2317977_25 = makeNative(co->gc, 1, clofun145, 0, 1, v_2317976_25);
+Obj v_2319802_25 = PRIM_ISCONS(v_2317976_25);
+if (True == v_2319802_25) {
+Obj v_2319803_25 = PRIM_CAR(v_2317976_25);
+Obj v_2319804_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319803_25);
+if (True == v_2319804_25) {
+Obj v_2319805_25 = PRIM_CDR(v_2317976_25);
+Obj v_more = v_2319805_25;
+Obj v_2319806_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319402_25, makeNative(co->gc, 2, clofun147, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319806_25, makeNative(co->gc, 2, clofun147, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317573_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317573_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 }
@@ -746,26 +746,26 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317574_25 = makeNative(co->gc, 1, clofun142, 0, 1, closureRef(R[0], 0));
-Obj v_2319393_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319393_25) {
-Obj v_2319394_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319395_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319394_25);
-if (True == v_2319395_25) {
-Obj v_2319396_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319396_25;
-Obj v_2319397_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
+Obj v_2317978_25 = makeNative(co->gc, 1, clofun142, 0, 1, closureRef(R[0], 0));
+Obj v_2319797_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319797_25) {
+Obj v_2319798_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319799_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319798_25);
+if (True == v_2319799_25) {
+Obj v_2319800_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319800_25;
+Obj v_2319801_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319397_25, makeNative(co->gc, 2, clofun144, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319801_25, makeNative(co->gc, 2, clofun144, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317574_25);
+coraCall0(co, v_2317978_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317574_25);
+coraCall0(co, v_2317978_25);
 return;
 }
 }
@@ -801,9 +801,9 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319390_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2319794_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2319390_25, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2319794_25, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
 return;
 }
 }
@@ -821,9 +821,9 @@ return;
 }
 case 1:
 {
-Obj v_2319391_25= co->res;
-Obj v_2319392_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319391_25);
-coraReturn(co, v_2319392_25);
+Obj v_2319795_25= co->res;
+Obj v_2319796_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319795_25);
+coraReturn(co, v_2319796_25);
 return;
 }
 }
@@ -851,50 +851,50 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317565_25 = R[1];
-Obj v_2317566_25 = R[2];
-Obj v_2317567_25 = makeNative(co->gc, 2, clofun138, 0, 2, v_2317565_25, v_2317566_25);
-Obj v_2319376_25 = PRIM_ISCONS(v_2317565_25);
-if (True == v_2319376_25) {
-Obj v_2319377_25 = PRIM_CAR(v_2317565_25);
-Obj v_2319378_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319377_25);
-if (True == v_2319378_25) {
-Obj v_2319379_25 = PRIM_CDR(v_2317565_25);
-Obj v_2319380_25 = PRIM_ISCONS(v_2319379_25);
-if (True == v_2319380_25) {
-Obj v_2319381_25 = PRIM_CDR(v_2317565_25);
-Obj v_2319382_25 = PRIM_CAR(v_2319381_25);
-Obj v_name = v_2319382_25;
-Obj v_2319383_25 = PRIM_CDR(v_2317565_25);
-Obj v_2319384_25 = PRIM_CDR(v_2319383_25);
-Obj v_more = v_2319384_25;
+Obj v_2317969_25 = R[1];
+Obj v_2317970_25 = R[2];
+Obj v_2317971_25 = makeNative(co->gc, 2, clofun138, 0, 2, v_2317969_25, v_2317970_25);
+Obj v_2319780_25 = PRIM_ISCONS(v_2317969_25);
+if (True == v_2319780_25) {
+Obj v_2319781_25 = PRIM_CAR(v_2317969_25);
+Obj v_2319782_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319781_25);
+if (True == v_2319782_25) {
+Obj v_2319783_25 = PRIM_CDR(v_2317969_25);
+Obj v_2319784_25 = PRIM_ISCONS(v_2319783_25);
+if (True == v_2319784_25) {
+Obj v_2319785_25 = PRIM_CDR(v_2317969_25);
+Obj v_2319786_25 = PRIM_CAR(v_2319785_25);
+Obj v_name = v_2319786_25;
+Obj v_2319787_25 = PRIM_CDR(v_2317969_25);
+Obj v_2319788_25 = PRIM_CDR(v_2319787_25);
+Obj v_more = v_2319788_25;
 R[1] = v_name;
 saveCont(co, clofun139, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2317566_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2317970_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317567_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317567_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317567_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319385_25= co->res;
+Obj v_2319789_25= co->res;
 Obj v_name = R[1];
-Obj v_2319386_25 = makeCons(co->gc, v_name, v_2319385_25);
-Obj v_2319387_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2319386_25);
-coraReturn(co, v_2319387_25);
+Obj v_2319790_25 = makeCons(co->gc, v_name, v_2319789_25);
+Obj v_2319791_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2319790_25);
+coraReturn(co, v_2319791_25);
 return;
 }
 }
@@ -904,69 +904,69 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317568_25 = makeNative(co->gc, 2, clofun137, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319355_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319355_25) {
-Obj v_2319356_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319357_25 = PRIM_ISCONS(v_2319356_25);
-if (True == v_2319357_25) {
-Obj v_2319358_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319359_25 = PRIM_CAR(v_2319358_25);
-Obj v_2319360_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319359_25);
-if (True == v_2319360_25) {
-Obj v_2319361_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319362_25 = PRIM_CDR(v_2319361_25);
-Obj v_2319363_25 = PRIM_ISCONS(v_2319362_25);
-if (True == v_2319363_25) {
-Obj v_2319364_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319365_25 = PRIM_CDR(v_2319364_25);
-Obj v_2319366_25 = PRIM_CAR(v_2319365_25);
-Obj v_pkg = v_2319366_25;
-Obj v_2319367_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319368_25 = PRIM_CDR(v_2319367_25);
-Obj v_2319369_25 = PRIM_CDR(v_2319368_25);
-Obj v_2319370_25 = PRIM_EQ(Nil, v_2319369_25);
-if (True == v_2319370_25) {
-Obj v_2319371_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319371_25;
-Obj v_2319372_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2319373_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2319372_25);
-R[1] = v_2319373_25;
+Obj v_2317972_25 = makeNative(co->gc, 2, clofun137, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319759_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319759_25) {
+Obj v_2319760_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319761_25 = PRIM_ISCONS(v_2319760_25);
+if (True == v_2319761_25) {
+Obj v_2319762_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319763_25 = PRIM_CAR(v_2319762_25);
+Obj v_2319764_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319763_25);
+if (True == v_2319764_25) {
+Obj v_2319765_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319766_25 = PRIM_CDR(v_2319765_25);
+Obj v_2319767_25 = PRIM_ISCONS(v_2319766_25);
+if (True == v_2319767_25) {
+Obj v_2319768_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319769_25 = PRIM_CDR(v_2319768_25);
+Obj v_2319770_25 = PRIM_CAR(v_2319769_25);
+Obj v_pkg = v_2319770_25;
+Obj v_2319771_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319772_25 = PRIM_CDR(v_2319771_25);
+Obj v_2319773_25 = PRIM_CDR(v_2319772_25);
+Obj v_2319774_25 = PRIM_EQ(Nil, v_2319773_25);
+if (True == v_2319774_25) {
+Obj v_2319775_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319775_25;
+Obj v_2319776_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2319777_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2319776_25);
+R[1] = v_2319777_25;
 saveCont(co, clofun138, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317568_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317568_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317568_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317568_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317568_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319374_25= co->res;
-Obj v_2319373_25 = R[1];
-Obj v_2319375_25 = makeCons(co->gc, v_2319373_25, v_2319374_25);
-coraReturn(co, v_2319375_25);
+Obj v_2319778_25= co->res;
+Obj v_2319777_25 = R[1];
+Obj v_2319779_25 = makeCons(co->gc, v_2319777_25, v_2319778_25);
+coraReturn(co, v_2319779_25);
 return;
 }
 }
@@ -976,48 +976,48 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317569_25 = makeNative(co->gc, 1, clofun136, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319343_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319343_25) {
-Obj v_2319344_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319345_25 = PRIM_ISCONS(v_2319344_25);
-if (True == v_2319345_25) {
-Obj v_2319346_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319347_25 = PRIM_CAR(v_2319346_25);
-Obj v_2319348_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319347_25);
-if (True == v_2319348_25) {
-Obj v_2319349_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319350_25 = PRIM_CDR(v_2319349_25);
-Obj v_symbols = v_2319350_25;
-Obj v_2319351_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319351_25;
-Obj v_2319352_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
-R[1] = v_2319352_25;
+Obj v_2317973_25 = makeNative(co->gc, 1, clofun136, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319747_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319747_25) {
+Obj v_2319748_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319749_25 = PRIM_ISCONS(v_2319748_25);
+if (True == v_2319749_25) {
+Obj v_2319750_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319751_25 = PRIM_CAR(v_2319750_25);
+Obj v_2319752_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319751_25);
+if (True == v_2319752_25) {
+Obj v_2319753_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319754_25 = PRIM_CDR(v_2319753_25);
+Obj v_symbols = v_2319754_25;
+Obj v_2319755_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319755_25;
+Obj v_2319756_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2319756_25;
 saveCont(co, clofun137, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317569_25);
+coraCall0(co, v_2317973_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317569_25);
+coraCall0(co, v_2317973_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317569_25);
+coraCall0(co, v_2317973_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319353_25= co->res;
-Obj v_2319352_25 = R[1];
-Obj v_2319354_25 = makeCons(co->gc, v_2319352_25, v_2319353_25);
-coraReturn(co, v_2319354_25);
+Obj v_2319757_25= co->res;
+Obj v_2319756_25 = R[1];
+Obj v_2319758_25 = makeCons(co->gc, v_2319756_25, v_2319757_25);
+coraReturn(co, v_2319758_25);
 return;
 }
 }
@@ -1027,33 +1027,33 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317570_25 = makeNative(co->gc, 1, clofun135, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2319337_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319337_25) {
-Obj v_2319338_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319339_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319338_25);
-if (True == v_2319339_25) {
-Obj v_2319340_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319340_25;
+Obj v_2317974_25 = makeNative(co->gc, 1, clofun135, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2319741_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319741_25) {
+Obj v_2319742_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319743_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319742_25);
+if (True == v_2319743_25) {
+Obj v_2319744_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319744_25;
 saveCont(co, clofun136, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317570_25);
+coraCall0(co, v_2317974_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317570_25);
+coraCall0(co, v_2317974_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319341_25= co->res;
-Obj v_2319342_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319341_25);
-coraReturn(co, v_2319342_25);
+Obj v_2319745_25= co->res;
+Obj v_2319746_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319745_25);
+coraReturn(co, v_2319746_25);
 return;
 }
 }
@@ -1074,73 +1074,73 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317557_25 = R[1];
-Obj v_2317558_25 = R[2];
-Obj v_2317559_25 = R[3];
-Obj v_2317560_25 = R[4];
-Obj v_2319298_25 = PRIM_EQ(Nil, v_2317557_25);
-if (True == v_2319298_25) {
-R[1] = v_2317559_25;
-R[2] = v_2317560_25;
+Obj v_2317961_25 = R[1];
+Obj v_2317962_25 = R[2];
+Obj v_2317963_25 = R[3];
+Obj v_2317964_25 = R[4];
+Obj v_2319702_25 = PRIM_EQ(Nil, v_2317961_25);
+if (True == v_2319702_25) {
+R[1] = v_2317963_25;
+R[2] = v_2317964_25;
 saveCont(co, clofun134, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317558_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317962_25);
 return;
 } else {
-Obj v_2317562_25 = makeNative(co->gc, 1, clofun133, 0, 4, v_2317557_25, v_2317558_25, v_2317559_25, v_2317560_25);
-Obj v_2319325_25 = PRIM_ISCONS(v_2317557_25);
-if (True == v_2319325_25) {
-Obj v_2319326_25 = PRIM_CAR(v_2317557_25);
-Obj v_2319327_25 = PRIM_ISCONS(v_2319326_25);
-if (True == v_2319327_25) {
-Obj v_2319328_25 = PRIM_CAR(v_2317557_25);
-Obj v_2319329_25 = PRIM_CAR(v_2319328_25);
-Obj v_2319330_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319329_25);
-if (True == v_2319330_25) {
-Obj v_2319331_25 = PRIM_CAR(v_2317557_25);
-Obj v_2319332_25 = PRIM_CDR(v_2319331_25);
-Obj v_exp = v_2319332_25;
-Obj v_2319333_25 = PRIM_CDR(v_2317557_25);
-Obj v_more = v_2319333_25;
-Obj v_2319334_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
-Obj v_2319335_25 = makeCons(co->gc, v_2319334_25, v_2317558_25);
+Obj v_2317966_25 = makeNative(co->gc, 1, clofun133, 0, 4, v_2317961_25, v_2317962_25, v_2317963_25, v_2317964_25);
+Obj v_2319729_25 = PRIM_ISCONS(v_2317961_25);
+if (True == v_2319729_25) {
+Obj v_2319730_25 = PRIM_CAR(v_2317961_25);
+Obj v_2319731_25 = PRIM_ISCONS(v_2319730_25);
+if (True == v_2319731_25) {
+Obj v_2319732_25 = PRIM_CAR(v_2317961_25);
+Obj v_2319733_25 = PRIM_CAR(v_2319732_25);
+Obj v_2319734_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319733_25);
+if (True == v_2319734_25) {
+Obj v_2319735_25 = PRIM_CAR(v_2317961_25);
+Obj v_2319736_25 = PRIM_CDR(v_2319735_25);
+Obj v_exp = v_2319736_25;
+Obj v_2319737_25 = PRIM_CDR(v_2317961_25);
+Obj v_more = v_2319737_25;
+Obj v_2319738_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2319739_25 = makeCons(co->gc, v_2319738_25, v_2317962_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319335_25, v_2317559_25, v_2317560_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319739_25, v_2317963_25, v_2317964_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317562_25);
+coraCall0(co, v_2317966_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317562_25);
+coraCall0(co, v_2317966_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317562_25);
+coraCall0(co, v_2317966_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319300_25= co->res;
-Obj v_2317560_25 = R[1];
-Obj v_2319299_25 = R[2];
+Obj v_2319704_25= co->res;
+Obj v_2317964_25 = R[1];
+Obj v_2319703_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2317560_25, v_2319299_25, v_2319300_25);
+coraCall2(co, v_2317964_25, v_2319703_25, v_2319704_25);
 return;
 }
 case 2:
 {
-Obj v_2319299_25= co->res;
-Obj v_2317559_25 = R[1];
-Obj v_2317560_25 = R[2];
-R[1] = v_2317560_25;
-R[2] = v_2319299_25;
+Obj v_2319703_25= co->res;
+Obj v_2317963_25 = R[1];
+Obj v_2317964_25 = R[2];
+R[1] = v_2317964_25;
+R[2] = v_2319703_25;
 saveCont(co, clofun134, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317559_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317963_25);
 return;
 }
 }
@@ -1150,39 +1150,39 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317563_25 = makeNative(co->gc, 1, clofun132, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2319314_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319314_25) {
-Obj v_2319315_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319316_25 = PRIM_ISCONS(v_2319315_25);
-if (True == v_2319316_25) {
-Obj v_2319317_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319318_25 = PRIM_CAR(v_2319317_25);
-Obj v_2319319_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319318_25);
-if (True == v_2319319_25) {
-Obj v_2319320_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319321_25 = PRIM_CDR(v_2319320_25);
-Obj v_exp = v_2319321_25;
-Obj v_2319322_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319322_25;
-Obj v_2319323_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
-Obj v_2319324_25 = makeCons(co->gc, v_2319323_25, closureRef(R[0], 1));
+Obj v_2317967_25 = makeNative(co->gc, 1, clofun132, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2319718_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319718_25) {
+Obj v_2319719_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319720_25 = PRIM_ISCONS(v_2319719_25);
+if (True == v_2319720_25) {
+Obj v_2319721_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319722_25 = PRIM_CAR(v_2319721_25);
+Obj v_2319723_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319722_25);
+if (True == v_2319723_25) {
+Obj v_2319724_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319725_25 = PRIM_CDR(v_2319724_25);
+Obj v_exp = v_2319725_25;
+Obj v_2319726_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319726_25;
+Obj v_2319727_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2319728_25 = makeCons(co->gc, v_2319727_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319324_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319728_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317563_25);
+coraCall0(co, v_2317967_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317563_25);
+coraCall0(co, v_2317967_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317563_25);
+coraCall0(co, v_2317967_25);
 return;
 }
 }
@@ -1193,24 +1193,24 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319301_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319301_25) {
-Obj v_2319302_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_exp = v_2319302_25;
-Obj v_2319303_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319303_25;
-Obj v_2319304_25 = makeCons(co->gc, v_exp, Nil);
-Obj v_2319305_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319304_25);
-Obj v_2319306_25 = makeCons(co->gc, v_2319305_25, Nil);
-Obj v_2319307_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319306_25);
-Obj v_2319308_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v_2319309_25 = makeCons(co->gc, v_2319308_25, Nil);
-Obj v_2319310_25 = makeCons(co->gc, v_2319307_25, v_2319309_25);
-Obj v_2319311_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319310_25);
-Obj v_2319312_25 = makeCons(co->gc, v_2319311_25, closureRef(R[0], 1));
-Obj v_2319313_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
+Obj v_2319705_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319705_25) {
+Obj v_2319706_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2319706_25;
+Obj v_2319707_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319707_25;
+Obj v_2319708_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2319709_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319708_25);
+Obj v_2319710_25 = makeCons(co->gc, v_2319709_25, Nil);
+Obj v_2319711_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319710_25);
+Obj v_2319712_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2319713_25 = makeCons(co->gc, v_2319712_25, Nil);
+Obj v_2319714_25 = makeCons(co->gc, v_2319711_25, v_2319713_25);
+Obj v_2319715_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319714_25);
+Obj v_2319716_25 = makeCons(co->gc, v_2319715_25, closureRef(R[0], 1));
+Obj v_2319717_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319312_25, v_2319313_25, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319716_25, v_2319717_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1225,37 +1225,37 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317551_25 = R[1];
-Obj v_2317552_25 = makeNative(co->gc, 1, clofun130, 0, 1, v_2317551_25);
-Obj v_2319288_25 = PRIM_ISCONS(v_2317551_25);
-if (True == v_2319288_25) {
-Obj v_2319289_25 = PRIM_CAR(v_2317551_25);
-Obj v_2319290_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319289_25);
-if (True == v_2319290_25) {
-Obj v_2319291_25 = PRIM_CDR(v_2317551_25);
-Obj v_2319292_25 = PRIM_ISCONS(v_2319291_25);
-if (True == v_2319292_25) {
-Obj v_2319293_25 = PRIM_CDR(v_2317551_25);
-Obj v_2319294_25 = PRIM_CAR(v_2319293_25);
-Obj v_2319295_25 = PRIM_CDR(v_2317551_25);
-Obj v_2319296_25 = PRIM_CDR(v_2319295_25);
-Obj v_remain = v_2319296_25;
+Obj v_2317955_25 = R[1];
+Obj v_2317956_25 = makeNative(co->gc, 1, clofun130, 0, 1, v_2317955_25);
+Obj v_2319692_25 = PRIM_ISCONS(v_2317955_25);
+if (True == v_2319692_25) {
+Obj v_2319693_25 = PRIM_CAR(v_2317955_25);
+Obj v_2319694_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319693_25);
+if (True == v_2319694_25) {
+Obj v_2319695_25 = PRIM_CDR(v_2317955_25);
+Obj v_2319696_25 = PRIM_ISCONS(v_2319695_25);
+if (True == v_2319696_25) {
+Obj v_2319697_25 = PRIM_CDR(v_2317955_25);
+Obj v_2319698_25 = PRIM_CAR(v_2319697_25);
+Obj v_2319699_25 = PRIM_CDR(v_2317955_25);
+Obj v_2319700_25 = PRIM_CDR(v_2319699_25);
+Obj v_remain = v_2319700_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317552_25);
+coraCall0(co, v_2317956_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317552_25);
+coraCall0(co, v_2317956_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317552_25);
+coraCall0(co, v_2317956_25);
 return;
 }
 }
@@ -1266,25 +1266,25 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317553_25 = makeNative(co->gc, 1, clofun129, 0, 1, closureRef(R[0], 0));
-Obj v_2319284_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319284_25) {
-Obj v_2319285_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319286_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319285_25);
-if (True == v_2319286_25) {
-Obj v_2319287_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319287_25;
+Obj v_2317957_25 = makeNative(co->gc, 1, clofun129, 0, 1, closureRef(R[0], 0));
+Obj v_2319688_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319688_25) {
+Obj v_2319689_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319690_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319689_25);
+if (True == v_2319690_25) {
+Obj v_2319691_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319691_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317553_25);
+coraCall0(co, v_2317957_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317553_25);
+coraCall0(co, v_2317957_25);
 return;
 }
 }
@@ -1295,36 +1295,36 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317554_25 = makeNative(co->gc, 2, clofun128, 0, 1, closureRef(R[0], 0));
-Obj v_2319275_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319275_25) {
-Obj v_2319276_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319277_25 = PRIM_ISCONS(v_2319276_25);
-if (True == v_2319277_25) {
-Obj v_2319278_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319279_25 = PRIM_CAR(v_2319278_25);
-Obj v_2319280_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319279_25);
-if (True == v_2319280_25) {
-Obj v_2319281_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319282_25 = PRIM_CDR(v_2319281_25);
-Obj v_2319283_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319283_25;
+Obj v_2317958_25 = makeNative(co->gc, 2, clofun128, 0, 1, closureRef(R[0], 0));
+Obj v_2319679_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319679_25) {
+Obj v_2319680_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319681_25 = PRIM_ISCONS(v_2319680_25);
+if (True == v_2319681_25) {
+Obj v_2319682_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319683_25 = PRIM_CAR(v_2319682_25);
+Obj v_2319684_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319683_25);
+if (True == v_2319684_25) {
+Obj v_2319685_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319686_25 = PRIM_CDR(v_2319685_25);
+Obj v_2319687_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319687_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317554_25);
+coraCall0(co, v_2317958_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317554_25);
+coraCall0(co, v_2317958_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317554_25);
+coraCall0(co, v_2317958_25);
 return;
 }
 }
@@ -1335,64 +1335,64 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317555_25 = makeNative(co->gc, 1, clofun127, 0, 0);
-Obj v_2319257_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319257_25) {
-Obj v_2319258_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319259_25 = PRIM_ISCONS(v_2319258_25);
-if (True == v_2319259_25) {
-Obj v_2319260_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319261_25 = PRIM_CAR(v_2319260_25);
-Obj v_2319262_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319261_25);
-if (True == v_2319262_25) {
-Obj v_2319263_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319264_25 = PRIM_CDR(v_2319263_25);
-Obj v_2319265_25 = PRIM_ISCONS(v_2319264_25);
-if (True == v_2319265_25) {
-Obj v_2319266_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319267_25 = PRIM_CDR(v_2319266_25);
-Obj v_2319268_25 = PRIM_CAR(v_2319267_25);
-Obj v_pkg = v_2319268_25;
-Obj v_2319269_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319270_25 = PRIM_CDR(v_2319269_25);
-Obj v_2319271_25 = PRIM_CDR(v_2319270_25);
-Obj v_2319272_25 = PRIM_EQ(Nil, v_2319271_25);
-if (True == v_2319272_25) {
-Obj v_2319273_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319273_25;
+Obj v_2317959_25 = makeNative(co->gc, 1, clofun127, 0, 0);
+Obj v_2319661_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319661_25) {
+Obj v_2319662_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319663_25 = PRIM_ISCONS(v_2319662_25);
+if (True == v_2319663_25) {
+Obj v_2319664_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319665_25 = PRIM_CAR(v_2319664_25);
+Obj v_2319666_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319665_25);
+if (True == v_2319666_25) {
+Obj v_2319667_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319668_25 = PRIM_CDR(v_2319667_25);
+Obj v_2319669_25 = PRIM_ISCONS(v_2319668_25);
+if (True == v_2319669_25) {
+Obj v_2319670_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319671_25 = PRIM_CDR(v_2319670_25);
+Obj v_2319672_25 = PRIM_CAR(v_2319671_25);
+Obj v_pkg = v_2319672_25;
+Obj v_2319673_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319674_25 = PRIM_CDR(v_2319673_25);
+Obj v_2319675_25 = PRIM_CDR(v_2319674_25);
+Obj v_2319676_25 = PRIM_EQ(Nil, v_2319675_25);
+if (True == v_2319676_25) {
+Obj v_2319677_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319677_25;
 R[1] = v_remain;
 saveCont(co, clofun128, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317555_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317555_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317555_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317555_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317555_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319274_25= co->res;
+Obj v_2319678_25= co->res;
 Obj v_remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
@@ -1427,7 +1427,7 @@ return;
 }
 case 1:
 {
-Obj v_2319255_25= co->res;
+Obj v_2319659_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1437,8 +1437,8 @@ return;
 }
 case 2:
 {
-Obj v_2319254_25= co->res;
-Obj v_2319251_25 = R[1];
+Obj v_2319658_25= co->res;
+Obj v_2319655_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
@@ -1446,32 +1446,32 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun126, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319251_25, v_2319254_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319655_25, v_2319658_25);
 return;
 }
 case 3:
 {
-Obj v_2319252_25= co->res;
-Obj v_2319251_25 = R[1];
+Obj v_2319656_25= co->res;
+Obj v_2319655_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
-Obj v_2319253_25 = PRIM_CAR(v_2319252_25);
-R[1] = v_2319251_25;
+Obj v_2319657_25 = PRIM_CAR(v_2319656_25);
+R[1] = v_2319655_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
 saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319253_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319657_25);
 return;
 }
 case 4:
 {
-Obj v_2319251_25= co->res;
+Obj v_2319655_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-R[1] = v_2319251_25;
+R[1] = v_2319655_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
@@ -1481,7 +1481,7 @@ return;
 }
 case 5:
 {
-Obj v_2319250_25= co->res;
+Obj v_2319654_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1494,7 +1494,7 @@ return;
 }
 case 6:
 {
-Obj v_2319249_25= co->res;
+Obj v_2319653_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1507,7 +1507,7 @@ return;
 }
 case 7:
 {
-Obj v_2319246_25= co->res;
+Obj v_2319650_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1520,7 +1520,7 @@ return;
 }
 case 8:
 {
-Obj v_2319245_25= co->res;
+Obj v_2319649_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1533,7 +1533,7 @@ return;
 }
 case 9:
 {
-Obj v_2319244_25= co->res;
+Obj v_2319648_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1564,14 +1564,14 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v_2319247_25 = PRIM_CAR(v_group);
+Obj v_2319651_25 = PRIM_CAR(v_group);
 saveCont(co, clofun124, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319247_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319651_25);
 return;
 }
 case 1:
 {
-Obj v_2319248_25= co->res;
+Obj v_2319652_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1597,7 +1597,7 @@ return;
 }
 case 1:
 {
-Obj v_2319242_25= co->res;
+Obj v_2319646_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1605,7 +1605,7 @@ return;
 }
 case 2:
 {
-Obj v_2319241_25= co->res;
+Obj v_2319645_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun123, 1, R);
@@ -1614,7 +1614,7 @@ return;
 }
 case 3:
 {
-Obj v_2319240_25= co->res;
+Obj v_2319644_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
@@ -1624,7 +1624,7 @@ return;
 }
 case 4:
 {
-Obj v_2319239_25= co->res;
+Obj v_2319643_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
@@ -1635,7 +1635,7 @@ return;
 }
 case 5:
 {
-Obj v_2319238_25= co->res;
+Obj v_2319642_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
@@ -1646,7 +1646,7 @@ return;
 }
 case 6:
 {
-Obj v_2319237_25= co->res;
+Obj v_2319641_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1658,7 +1658,7 @@ return;
 }
 case 7:
 {
-Obj v_2319236_25= co->res;
+Obj v_2319640_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1671,7 +1671,7 @@ return;
 }
 case 8:
 {
-Obj v_2319235_25= co->res;
+Obj v_2319639_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1684,7 +1684,7 @@ return;
 }
 case 9:
 {
-Obj v_2319226_25= co->res;
+Obj v_2319630_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1698,7 +1698,7 @@ return;
 }
 case 10:
 {
-Obj v_2319225_25= co->res;
+Obj v_2319629_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1713,7 +1713,7 @@ return;
 }
 case 11:
 {
-Obj v_2319224_25= co->res;
+Obj v_2319628_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1723,12 +1723,12 @@ R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun123, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319224_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319628_25);
 return;
 }
 case 12:
 {
-Obj v_2319223_25= co->res;
+Obj v_2319627_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1743,7 +1743,7 @@ return;
 }
 case 13:
 {
-Obj v_2319222_25= co->res;
+Obj v_2319626_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1758,7 +1758,7 @@ return;
 }
 case 14:
 {
-Obj v_2319221_25= co->res;
+Obj v_2319625_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1788,15 +1788,15 @@ return;
 }
 case 1:
 {
-Obj v_2319233_25= co->res;
+Obj v_2319637_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319234_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319234_25);
+Obj v_2319638_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319638_25);
 return;
 }
 case 2:
 {
-Obj v_2319232_25= co->res;
+Obj v_2319636_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun122, 1, R);
@@ -1805,25 +1805,25 @@ return;
 }
 case 3:
 {
-Obj v_2319231_25= co->res;
+Obj v_2319635_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun122, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319231_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319635_25);
 return;
 }
 case 4:
 {
-Obj v_2319230_25= co->res;
+Obj v_2319634_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun122, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319230_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319634_25);
 return;
 }
 case 5:
 {
-Obj v_2319229_25= co->res;
+Obj v_2319633_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -1833,7 +1833,7 @@ return;
 }
 case 6:
 {
-Obj v_2319228_25= co->res;
+Obj v_2319632_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1844,7 +1844,7 @@ return;
 }
 case 7:
 {
-Obj v_2319227_25= co->res;
+Obj v_2319631_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1863,8 +1863,8 @@ case 0:
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v_2319199_25 = PRIM_CAR(v_group);
-Obj v_label = v_2319199_25;
+Obj v_2319603_25 = PRIM_CAR(v_group);
+Obj v_label = v_2319603_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_to;
@@ -1874,7 +1874,7 @@ return;
 }
 case 1:
 {
-Obj v_2319219_25= co->res;
+Obj v_2319623_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1882,7 +1882,7 @@ return;
 }
 case 2:
 {
-Obj v_2319218_25= co->res;
+Obj v_2319622_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun121, 1, R);
@@ -1891,19 +1891,19 @@ return;
 }
 case 3:
 {
-Obj v_2319217_25= co->res;
+Obj v_2319621_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
 saveCont(co, clofun121, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun120, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319217_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun120, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319621_25);
 return;
 }
 case 4:
 {
-Obj v_2319209_25= co->res;
+Obj v_2319613_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1918,7 +1918,7 @@ return;
 }
 case 5:
 {
-Obj v_2319208_25= co->res;
+Obj v_2319612_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1933,7 +1933,7 @@ return;
 }
 case 6:
 {
-Obj v_2319207_25= co->res;
+Obj v_2319611_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1951,7 +1951,7 @@ return;
 }
 case 7:
 {
-Obj v_2319206_25= co->res;
+Obj v_2319610_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1971,7 +1971,7 @@ return;
 }
 case 8:
 {
-Obj v_2319205_25= co->res;
+Obj v_2319609_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1990,7 +1990,7 @@ return;
 }
 case 9:
 {
-Obj v_2319204_25= co->res;
+Obj v_2319608_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2009,7 +2009,7 @@ return;
 }
 case 10:
 {
-Obj v_2319203_25= co->res;
+Obj v_2319607_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2028,13 +2028,13 @@ return;
 }
 case 11:
 {
-Obj v_2319202_25= co->res;
+Obj v_2319606_25= co->res;
 Obj v_params = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
 Obj v_lam = R[4];
 Obj v_to = R[5];
-Obj v_first_2dstmt = v_2319202_25;
+Obj v_first_2dstmt = v_2319606_25;
 R[1] = v_params;
 R[2] = v_first_2dstmt;
 R[3] = v_globals;
@@ -2047,12 +2047,12 @@ return;
 }
 case 12:
 {
-Obj v_2319201_25= co->res;
+Obj v_2319605_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
-Obj v_params = v_2319201_25;
+Obj v_params = v_2319605_25;
 R[1] = v_params;
 R[2] = v_globals;
 R[3] = v_label;
@@ -2064,11 +2064,11 @@ return;
 }
 case 13:
 {
-Obj v_2319200_25= co->res;
+Obj v_2319604_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-Obj v_lam = v_2319200_25;
+Obj v_lam = v_2319604_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
@@ -2094,15 +2094,15 @@ return;
 }
 case 1:
 {
-Obj v_2319215_25= co->res;
+Obj v_2319619_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319216_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319216_25);
+Obj v_2319620_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319620_25);
 return;
 }
 case 2:
 {
-Obj v_2319214_25= co->res;
+Obj v_2319618_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun120, 1, R);
@@ -2111,18 +2111,18 @@ return;
 }
 case 3:
 {
-Obj v_2319213_25= co->res;
+Obj v_2319617_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun120, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319213_25, closureRef(R[0], 3), v_cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319617_25, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 41)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2319212_25= co->res;
+Obj v_2319616_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2133,7 +2133,7 @@ return;
 }
 case 5:
 {
-Obj v_2319211_25= co->res;
+Obj v_2319615_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2144,7 +2144,7 @@ return;
 }
 case 6:
 {
-Obj v_2319210_25= co->res;
+Obj v_2319614_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2160,23 +2160,23 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317547_25 = R[1];
-Obj v_2317548_25 = R[2];
-Obj v_2319193_25 = PRIM_EQ(Nil, v_2317548_25);
-if (True == v_2319193_25) {
+Obj v_2317951_25 = R[1];
+Obj v_2317952_25 = R[2];
+Obj v_2319597_25 = PRIM_EQ(Nil, v_2317952_25);
+if (True == v_2319597_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319194_25 = PRIM_ISCONS(v_2317548_25);
-if (True == v_2319194_25) {
-Obj v_2319195_25 = PRIM_CAR(v_2317548_25);
-Obj v_x = v_2319195_25;
-Obj v_2319196_25 = PRIM_CDR(v_2317548_25);
-Obj v_y = v_2319196_25;
-R[1] = v_2317547_25;
+Obj v_2319598_25 = PRIM_ISCONS(v_2317952_25);
+if (True == v_2319598_25) {
+Obj v_2319599_25 = PRIM_CAR(v_2317952_25);
+Obj v_x = v_2319599_25;
+Obj v_2319600_25 = PRIM_CDR(v_2317952_25);
+Obj v_y = v_2319600_25;
+R[1] = v_2317951_25;
 R[2] = v_y;
 saveCont(co, clofun119, 1, R);
-coraCall1(co, v_2317547_25, v_x);
+coraCall1(co, v_2317951_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2187,11 +2187,11 @@ return;
 }
 case 1:
 {
-Obj v_2319197_25= co->res;
-Obj v_2317547_25 = R[1];
+Obj v_2319601_25= co->res;
+Obj v_2317951_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2317547_25, v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2317951_25, v_y);
 return;
 }
 }
@@ -2210,38 +2210,38 @@ return;
 }
 case 1:
 {
-Obj v_2319191_25= co->res;
+Obj v_2319595_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319191_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319595_25);
 return;
 }
 case 2:
 {
-Obj v_2319190_25= co->res;
+Obj v_2319594_25= co->res;
 saveCont(co, clofun118, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319190_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319594_25);
 return;
 }
 case 3:
 {
-Obj v_2319189_25= co->res;
+Obj v_2319593_25= co->res;
 saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319189_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319593_25);
 return;
 }
 case 4:
 {
-Obj v_2319188_25= co->res;
+Obj v_2319592_25= co->res;
 saveCont(co, clofun118, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319188_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319592_25);
 return;
 }
 case 5:
 {
-Obj v_2319187_25= co->res;
+Obj v_2319591_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun118, 4, R);
-coraCall1(co, v_2319187_25, v_exp);
+coraCall1(co, v_2319591_25, v_exp);
 return;
 }
 }
@@ -2259,18 +2259,18 @@ return;
 }
 case 1:
 {
-Obj v_2319185_25= co->res;
+Obj v_2319589_25= co->res;
 Obj v_obj = R[1];
-Obj v_fns = v_2319185_25;
+Obj v_fns = v_2319589_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj v_2319184_25= co->res;
+Obj v_2319588_25= co->res;
 Obj v_exp = R[1];
-Obj v_obj = v_2319184_25;
+Obj v_obj = v_2319588_25;
 R[1] = v_obj;
 saveCont(co, clofun117, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v_exp);
@@ -2283,23 +2283,23 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317543_25 = R[1];
-Obj v_2317544_25 = R[2];
-Obj v_2319177_25 = PRIM_EQ(Nil, v_2317544_25);
-if (True == v_2319177_25) {
-coraReturn(co, v_2317543_25);
+Obj v_2317947_25 = R[1];
+Obj v_2317948_25 = R[2];
+Obj v_2319581_25 = PRIM_EQ(Nil, v_2317948_25);
+if (True == v_2319581_25) {
+coraReturn(co, v_2317947_25);
 return;
 } else {
-Obj v_2319178_25 = PRIM_ISCONS(v_2317544_25);
-if (True == v_2319178_25) {
-Obj v_2319179_25 = PRIM_CAR(v_2317544_25);
-Obj v_hd = v_2319179_25;
-Obj v_2319180_25 = PRIM_CDR(v_2317544_25);
-Obj v_more = v_2319180_25;
-Obj v_2319181_25 = makeCons(co->gc, v_2317543_25, Nil);
-Obj v_2319182_25 = makeCons(co->gc, v_hd, v_2319181_25);
+Obj v_2319582_25 = PRIM_ISCONS(v_2317948_25);
+if (True == v_2319582_25) {
+Obj v_2319583_25 = PRIM_CAR(v_2317948_25);
+Obj v_hd = v_2319583_25;
+Obj v_2319584_25 = PRIM_CDR(v_2317948_25);
+Obj v_more = v_2319584_25;
+Obj v_2319585_25 = makeCons(co->gc, v_2317947_25, Nil);
+Obj v_2319586_25 = makeCons(co->gc, v_hd, v_2319585_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319182_25, v_more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319586_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2323,7 +2323,7 @@ return;
 }
 case 1:
 {
-Obj v_2319175_25= co->res;
+Obj v_2319579_25= co->res;
 Obj v_v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
@@ -2331,9 +2331,9 @@ return;
 }
 case 2:
 {
-Obj v_2319174_25= co->res;
+Obj v_2319578_25= co->res;
 Obj v_v = R[1];
-Obj v_e2 = v_2319174_25;
+Obj v_e2 = v_2319578_25;
 R[1] = v_v;
 saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_v, v_e2);
@@ -2341,9 +2341,9 @@ return;
 }
 case 3:
 {
-Obj v_2319173_25= co->res;
+Obj v_2319577_25= co->res;
 Obj v_v = R[1];
-Obj v_e1 = v_2319173_25;
+Obj v_e1 = v_2319577_25;
 R[1] = v_v;
 saveCont(co, clofun115, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v_e1);
@@ -2351,7 +2351,7 @@ return;
 }
 case 4:
 {
-Obj v_2319172_25= co->res;
+Obj v_2319576_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
@@ -2361,7 +2361,7 @@ return;
 }
 case 5:
 {
-Obj v_2319171_25= co->res;
+Obj v_2319575_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_exp;
@@ -2372,9 +2372,9 @@ return;
 }
 case 6:
 {
-Obj v_2319170_25= co->res;
+Obj v_2319574_25= co->res;
 Obj v_exp = R[1];
-Obj v_v = v_2319170_25;
+Obj v_v = v_2319574_25;
 R[1] = v_exp;
 R[2] = v_v;
 saveCont(co, clofun115, 5, R);
@@ -2426,9 +2426,9 @@ case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
-Obj v_2319164_25 = primGenSym(co);
-Obj v_used = v_2319164_25;
-Obj v_2319165_25 = primSet(co, v_used, Nil);
+Obj v_2319568_25 = primGenSym(co);
+Obj v_used = v_2319568_25;
+Obj v_2319569_25 = primSet(co, v_used, Nil);
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), Nil, v_used, v_globals, v_exp);
 return;
@@ -2450,7 +2450,7 @@ return;
 }
 case 1:
 {
-Obj v_2319162_25= co->res;
+Obj v_2319566_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
@@ -2458,7 +2458,7 @@ return;
 }
 case 2:
 {
-Obj v_2319161_25= co->res;
+Obj v_2319565_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
 saveCont(co, clofun110, 1, R);
@@ -2467,7 +2467,7 @@ return;
 }
 case 3:
 {
-Obj v_2319160_25= co->res;
+Obj v_2319564_25= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
@@ -2492,7 +2492,7 @@ return;
 }
 case 1:
 {
-Obj v_2319158_25= co->res;
+Obj v_2319562_25= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2506,136 +2506,136 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317537_25 = R[1];
-Obj v_2317538_25 = R[2];
-Obj v_2317539_25 = R[3];
-Obj v_2317540_25 = R[4];
-Obj v_2317541_25 = R[5];
-Obj v_2317542_25 = makeNative(co->gc, 1, clofun107, 0, 0);
-Obj v_2319136_25 = PRIM_ISCONS(v_2317541_25);
-if (True == v_2319136_25) {
-Obj v_2319137_25 = PRIM_CAR(v_2317541_25);
-Obj v_2319138_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319137_25);
-if (True == v_2319138_25) {
-Obj v_2319139_25 = PRIM_CDR(v_2317541_25);
-Obj v_2319140_25 = PRIM_ISCONS(v_2319139_25);
-if (True == v_2319140_25) {
-Obj v_2319141_25 = PRIM_CDR(v_2317541_25);
-Obj v_2319142_25 = PRIM_CAR(v_2319141_25);
-Obj v_var = v_2319142_25;
-Obj v_2319143_25 = PRIM_CDR(v_2317541_25);
-Obj v_2319144_25 = PRIM_CDR(v_2319143_25);
-Obj v_2319145_25 = PRIM_ISCONS(v_2319144_25);
-if (True == v_2319145_25) {
-Obj v_2319146_25 = PRIM_CDR(v_2317541_25);
-Obj v_2319147_25 = PRIM_CDR(v_2319146_25);
-Obj v_2319148_25 = PRIM_CAR(v_2319147_25);
-Obj v_body = v_2319148_25;
-Obj v_2319149_25 = PRIM_CDR(v_2317541_25);
-Obj v_2319150_25 = PRIM_CDR(v_2319149_25);
-Obj v_2319151_25 = PRIM_CDR(v_2319150_25);
-Obj v_fvs = v_2319151_25;
+Obj v_2317941_25 = R[1];
+Obj v_2317942_25 = R[2];
+Obj v_2317943_25 = R[3];
+Obj v_2317944_25 = R[4];
+Obj v_2317945_25 = R[5];
+Obj v_2317946_25 = makeNative(co->gc, 1, clofun107, 0, 0);
+Obj v_2319540_25 = PRIM_ISCONS(v_2317945_25);
+if (True == v_2319540_25) {
+Obj v_2319541_25 = PRIM_CAR(v_2317945_25);
+Obj v_2319542_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319541_25);
+if (True == v_2319542_25) {
+Obj v_2319543_25 = PRIM_CDR(v_2317945_25);
+Obj v_2319544_25 = PRIM_ISCONS(v_2319543_25);
+if (True == v_2319544_25) {
+Obj v_2319545_25 = PRIM_CDR(v_2317945_25);
+Obj v_2319546_25 = PRIM_CAR(v_2319545_25);
+Obj v_var = v_2319546_25;
+Obj v_2319547_25 = PRIM_CDR(v_2317945_25);
+Obj v_2319548_25 = PRIM_CDR(v_2319547_25);
+Obj v_2319549_25 = PRIM_ISCONS(v_2319548_25);
+if (True == v_2319549_25) {
+Obj v_2319550_25 = PRIM_CDR(v_2317945_25);
+Obj v_2319551_25 = PRIM_CDR(v_2319550_25);
+Obj v_2319552_25 = PRIM_CAR(v_2319551_25);
+Obj v_body = v_2319552_25;
+Obj v_2319553_25 = PRIM_CDR(v_2317945_25);
+Obj v_2319554_25 = PRIM_CDR(v_2319553_25);
+Obj v_2319555_25 = PRIM_CDR(v_2319554_25);
+Obj v_fvs = v_2319555_25;
 R[1] = v_var;
 R[2] = v_fvs;
-R[3] = v_2317537_25;
-R[4] = v_2317538_25;
-R[5] = v_2317539_25;
-R[6] = v_2317540_25;
+R[3] = v_2317941_25;
+R[4] = v_2317942_25;
+R[5] = v_2317943_25;
+R[6] = v_2317944_25;
 R[7] = v_body;
 saveCont(co, clofun108, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317540_25, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317944_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317542_25);
+coraCall0(co, v_2317946_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317542_25);
+coraCall0(co, v_2317946_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317542_25);
+coraCall0(co, v_2317946_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317542_25);
+coraCall0(co, v_2317946_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319156_25= co->res;
-Obj v_2317537_25 = R[1];
-Obj v_2317538_25 = R[2];
-Obj v_2317539_25 = R[3];
-Obj v_2317540_25 = R[4];
+Obj v_2319560_25= co->res;
+Obj v_2317941_25 = R[1];
+Obj v_2317942_25 = R[2];
+Obj v_2317943_25 = R[3];
+Obj v_2317944_25 = R[4];
 Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v_2317537_25, v_2317538_25, v_2317539_25, v_2317540_25, v_body};
+Obj __args[5] = {v_2317941_25, v_2317942_25, v_2317943_25, v_2317944_25, v_body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v_2319155_25= co->res;
+Obj v_2319559_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2317537_25 = R[2];
-Obj v_2317538_25 = R[3];
-Obj v_2317539_25 = R[4];
-Obj v_2317540_25 = R[5];
+Obj v_2317941_25 = R[2];
+Obj v_2317942_25 = R[3];
+Obj v_2317943_25 = R[4];
+Obj v_2317944_25 = R[5];
 Obj v_body = R[6];
-R[1] = v_2317537_25;
-R[2] = v_2317538_25;
-R[3] = v_2317539_25;
-R[4] = v_2317540_25;
+R[1] = v_2317941_25;
+R[2] = v_2317942_25;
+R[3] = v_2317943_25;
+R[4] = v_2317944_25;
 R[5] = v_body;
 saveCont(co, clofun108, 1, R);
-Obj __args[5] = {v_2317537_25, v_2317538_25, v_2317539_25, v_2317540_25, v_fvs};
+Obj __args[5] = {v_2317941_25, v_2317942_25, v_2317943_25, v_2317944_25, v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2319154_25= co->res;
+Obj v_2319558_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2317537_25 = R[2];
-Obj v_2317538_25 = R[3];
-Obj v_2317539_25 = R[4];
-Obj v_2317540_25 = R[5];
+Obj v_2317941_25 = R[2];
+Obj v_2317942_25 = R[3];
+Obj v_2317943_25 = R[4];
+Obj v_2317944_25 = R[5];
 Obj v_body = R[6];
 R[1] = v_fvs;
-R[2] = v_2317537_25;
-R[3] = v_2317538_25;
-R[4] = v_2317539_25;
-R[5] = v_2317540_25;
+R[2] = v_2317941_25;
+R[3] = v_2317942_25;
+R[4] = v_2317943_25;
+R[5] = v_2317944_25;
 R[6] = v_body;
 saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317540_25, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317944_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v_2319152_25= co->res;
+Obj v_2319556_25= co->res;
 Obj v_var = R[1];
 Obj v_fvs = R[2];
-Obj v_2317537_25 = R[3];
-Obj v_2317538_25 = R[4];
-Obj v_2317539_25 = R[5];
-Obj v_2317540_25 = R[6];
+Obj v_2317941_25 = R[3];
+Obj v_2317942_25 = R[4];
+Obj v_2317943_25 = R[5];
+Obj v_2317944_25 = R[6];
 Obj v_body = R[7];
-Obj v_2319153_25 = PRIM_CAR(v_var);
+Obj v_2319557_25 = PRIM_CAR(v_var);
 R[1] = v_fvs;
-R[2] = v_2317537_25;
-R[3] = v_2317538_25;
-R[4] = v_2317539_25;
-R[5] = v_2317540_25;
+R[2] = v_2317941_25;
+R[3] = v_2317942_25;
+R[4] = v_2317943_25;
+R[5] = v_2317944_25;
 R[6] = v_body;
 saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2317540_25, v_2319153_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2317944_25, v_2319557_25);
 return;
 }
 }
@@ -2661,9 +2661,9 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v_2319122_25 = primGenSym(co);
-Obj v_generate_2dinst_2dlist_2dh = v_2319122_25;
-Obj v_2319133_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun105, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+Obj v_2319526_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2319526_25;
+Obj v_2319537_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun105, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
 R[1] = v_l;
 saveCont(co, clofun106, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_generate_2dinst_2dlist_2dh);
@@ -2671,10 +2671,10 @@ return;
 }
 case 1:
 {
-Obj v_2319134_25= co->res;
+Obj v_2319538_25= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319134_25, v_l);
+coraCall1(co, v_2319538_25, v_l);
 return;
 }
 }
@@ -2685,17 +2685,17 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2319123_25 = PRIM_EQ(Nil, v_x);
-if (True == v_2319123_25) {
+Obj v_2319527_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2319527_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319124_25 = PRIM_ISCONS(v_x);
-if (True == v_2319124_25) {
-Obj v_2319125_25 = PRIM_CAR(v_x);
-Obj v_a = v_2319125_25;
-Obj v_2319126_25 = PRIM_CDR(v_x);
-Obj v_b = v_2319126_25;
+Obj v_2319528_25 = PRIM_ISCONS(v_x);
+if (True == v_2319528_25) {
+Obj v_2319529_25 = PRIM_CAR(v_x);
+Obj v_a = v_2319529_25;
+Obj v_2319530_25 = PRIM_CDR(v_x);
+Obj v_b = v_2319530_25;
 R[1] = v_b;
 saveCont(co, clofun105, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
@@ -2710,15 +2710,15 @@ return;
 }
 case 1:
 {
-Obj v_2319131_25= co->res;
+Obj v_2319535_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319131_25, v_b);
+coraCall1(co, v_2319535_25, v_b);
 return;
 }
 case 2:
 {
-Obj v_2319130_25= co->res;
+Obj v_2319534_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun105, 1, R);
@@ -2727,18 +2727,18 @@ return;
 }
 case 3:
 {
-Obj v_2319132_25= co->res;
+Obj v_2319536_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319132_25, v_b);
+coraCall1(co, v_2319536_25, v_b);
 return;
 }
 case 4:
 {
-Obj v_2319128_25= co->res;
+Obj v_2319532_25= co->res;
 Obj v_b = R[1];
-Obj v_2319129_25 = primNot(v_2319128_25);
-if (True == v_2319129_25) {
+Obj v_2319533_25 = primNot(v_2319532_25);
+if (True == v_2319533_25) {
 R[1] = v_b;
 saveCont(co, clofun105, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
@@ -2753,7 +2753,7 @@ return;
 }
 case 5:
 {
-Obj v_2319127_25= co->res;
+Obj v_2319531_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun105, 4, R);
@@ -2772,9 +2772,9 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v_2318835_25 = primGenSym(co);
-Obj v_generate_2dinst_2dh = v_2318835_25;
-Obj v_2319119_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun103, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+Obj v_2319239_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2319239_25;
+Obj v_2319523_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun103, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
 saveCont(co, clofun104, 1, R);
@@ -2783,11 +2783,11 @@ return;
 }
 case 1:
 {
-Obj v_2319120_25= co->res;
+Obj v_2319524_25= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2319120_25, v_x1, v_env1);
+coraCall2(co, v_2319524_25, v_x1, v_env1);
 return;
 }
 }
@@ -2799,71 +2799,71 @@ case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v_2318836_25 = primIsSymbol(v_x2);
-if (True == v_2318836_25) {
+Obj v_2319240_25 = primIsSymbol(v_x2);
+if (True == v_2319240_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v_2317523_25 = makeNative(co->gc, 2, clofun102, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v_2319106_25 = PRIM_ISCONS(v_x2);
-if (True == v_2319106_25) {
-Obj v_2319107_25 = PRIM_CAR(v_x2);
-Obj v_2319108_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319107_25);
-if (True == v_2319108_25) {
-Obj v_2319109_25 = PRIM_CDR(v_x2);
-Obj v_2319110_25 = PRIM_ISCONS(v_2319109_25);
-if (True == v_2319110_25) {
-Obj v_2319111_25 = PRIM_CDR(v_x2);
-Obj v_2319112_25 = PRIM_CAR(v_2319111_25);
-Obj v_x = v_2319112_25;
-Obj v_2319113_25 = PRIM_CDR(v_x2);
-Obj v_2319114_25 = PRIM_CDR(v_2319113_25);
-Obj v_2319115_25 = PRIM_EQ(Nil, v_2319114_25);
-if (True == v_2319115_25) {
+Obj v_2317927_25 = makeNative(co->gc, 2, clofun102, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2319510_25 = PRIM_ISCONS(v_x2);
+if (True == v_2319510_25) {
+Obj v_2319511_25 = PRIM_CAR(v_x2);
+Obj v_2319512_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319511_25);
+if (True == v_2319512_25) {
+Obj v_2319513_25 = PRIM_CDR(v_x2);
+Obj v_2319514_25 = PRIM_ISCONS(v_2319513_25);
+if (True == v_2319514_25) {
+Obj v_2319515_25 = PRIM_CDR(v_x2);
+Obj v_2319516_25 = PRIM_CAR(v_2319515_25);
+Obj v_x = v_2319516_25;
+Obj v_2319517_25 = PRIM_CDR(v_x2);
+Obj v_2319518_25 = PRIM_CDR(v_2319517_25);
+Obj v_2319519_25 = PRIM_EQ(Nil, v_2319518_25);
+if (True == v_2319519_25) {
 R[1] = v_x;
 saveCont(co, clofun103, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317523_25);
+coraCall0(co, v_2317927_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317523_25);
+coraCall0(co, v_2317927_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317523_25);
+coraCall0(co, v_2317927_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317523_25);
+coraCall0(co, v_2317927_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319118_25= co->res;
+Obj v_2319522_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v_2319117_25= co->res;
+Obj v_2319521_25= co->res;
 saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319117_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319521_25);
 return;
 }
 case 3:
 {
-Obj v_2319116_25= co->res;
+Obj v_2319520_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun103, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 2));
@@ -2876,57 +2876,57 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317524_25 = makeNative(co->gc, 2, clofun101, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v_2319094_25 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v_2319094_25) {
-Obj v_2319095_25 = PRIM_CAR(closureRef(R[0], 4));
-Obj v_2319096_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319095_25);
-if (True == v_2319096_25) {
-Obj v_2319097_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319098_25 = PRIM_ISCONS(v_2319097_25);
-if (True == v_2319098_25) {
-Obj v_2319099_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319100_25 = PRIM_CAR(v_2319099_25);
-Obj v_idx = v_2319100_25;
-Obj v_2319101_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319102_25 = PRIM_CDR(v_2319101_25);
-Obj v_2319103_25 = PRIM_EQ(Nil, v_2319102_25);
-if (True == v_2319103_25) {
+Obj v_2317928_25 = makeNative(co->gc, 2, clofun101, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2319498_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2319498_25) {
+Obj v_2319499_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2319500_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319499_25);
+if (True == v_2319500_25) {
+Obj v_2319501_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319502_25 = PRIM_ISCONS(v_2319501_25);
+if (True == v_2319502_25) {
+Obj v_2319503_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319504_25 = PRIM_CAR(v_2319503_25);
+Obj v_idx = v_2319504_25;
+Obj v_2319505_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319506_25 = PRIM_CDR(v_2319505_25);
+Obj v_2319507_25 = PRIM_EQ(Nil, v_2319506_25);
+if (True == v_2319507_25) {
 R[1] = v_idx;
 saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317524_25);
+coraCall0(co, v_2317928_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317524_25);
+coraCall0(co, v_2317928_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317524_25);
+coraCall0(co, v_2317928_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317524_25);
+coraCall0(co, v_2317928_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319105_25= co->res;
+Obj v_2319509_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319104_25= co->res;
+Obj v_2319508_25= co->res;
 Obj v_idx = R[1];
 saveCont(co, clofun102, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_idx);
@@ -2939,24 +2939,24 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317525_25 = makeNative(co->gc, 4, clofun100, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2319070_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2319070_25) {
-Obj v_2319071_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2319072_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319071_25);
-if (True == v_2319072_25) {
-Obj v_2319073_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319074_25 = PRIM_ISCONS(v_2319073_25);
-if (True == v_2319074_25) {
-Obj v_2319075_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319076_25 = PRIM_CAR(v_2319075_25);
-Obj v_x = v_2319076_25;
-Obj v_2319077_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319078_25 = PRIM_CDR(v_2319077_25);
-Obj v_2319079_25 = PRIM_EQ(Nil, v_2319078_25);
-if (True == v_2319079_25) {
-Obj v_2319080_25 = primIsSymbol(v_x);
-if (True == v_2319080_25) {
+Obj v_2317929_25 = makeNative(co->gc, 4, clofun100, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319474_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2319474_25) {
+Obj v_2319475_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2319476_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319475_25);
+if (True == v_2319476_25) {
+Obj v_2319477_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319478_25 = PRIM_ISCONS(v_2319477_25);
+if (True == v_2319478_25) {
+Obj v_2319479_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319480_25 = PRIM_CAR(v_2319479_25);
+Obj v_x = v_2319480_25;
+Obj v_2319481_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319482_25 = PRIM_CDR(v_2319481_25);
+Obj v_2319483_25 = PRIM_EQ(Nil, v_2319482_25);
+if (True == v_2319483_25) {
+Obj v_2319484_25 = primIsSymbol(v_x);
+if (True == v_2319484_25) {
 R[1] = v_x;
 saveCont(co, clofun101, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
@@ -2969,42 +2969,42 @@ return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317525_25);
+coraCall0(co, v_2317929_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317525_25);
+coraCall0(co, v_2317929_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317525_25);
+coraCall0(co, v_2317929_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317525_25);
+coraCall0(co, v_2317929_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319083_25= co->res;
+Obj v_2319487_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v_2319082_25= co->res;
+Obj v_2319486_25= co->res;
 saveCont(co, clofun101, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319082_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319486_25);
 return;
 }
 case 3:
 {
-Obj v_2319081_25= co->res;
+Obj v_2319485_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun101, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 4));
@@ -3012,14 +3012,14 @@ return;
 }
 case 4:
 {
-Obj v_2319086_25= co->res;
+Obj v_2319490_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v_2319085_25= co->res;
+Obj v_2319489_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun101, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_x);
@@ -3027,21 +3027,21 @@ return;
 }
 case 6:
 {
-Obj v_2319090_25= co->res;
+Obj v_2319494_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v_2319089_25= co->res;
+Obj v_2319493_25= co->res;
 saveCont(co, clofun101, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319089_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319493_25);
 return;
 }
 case 8:
 {
-Obj v_2319088_25= co->res;
+Obj v_2319492_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun101, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_x);
@@ -3049,35 +3049,35 @@ return;
 }
 case 9:
 {
-Obj v_2319084_25= co->res;
+Obj v_2319488_25= co->res;
 Obj v_x = R[1];
-if (True == v_2319084_25) {
+if (True == v_2319488_25) {
 R[1] = v_x;
 saveCont(co, clofun101, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v_2319087_25 = primIsString(v_x);
-if (True == v_2319087_25) {
+Obj v_2319491_25 = primIsString(v_x);
+if (True == v_2319491_25) {
 R[1] = v_x;
 saveCont(co, clofun101, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v_2319091_25 = PRIM_EQ(v_x, Nil);
-if (True == v_2319091_25) {
+Obj v_2319495_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2319495_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v_2319092_25 = PRIM_EQ(v_x, True);
-if (True == v_2319092_25) {
+Obj v_2319496_25 = PRIM_EQ(v_x, True);
+if (True == v_2319496_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v_2319093_25 = PRIM_EQ(v_x, False);
-if (True == v_2319093_25) {
+Obj v_2319497_25 = PRIM_EQ(v_x, False);
+if (True == v_2319497_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3098,42 +3098,42 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317526_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2319035_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319035_25) {
-Obj v_2319036_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319037_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319036_25);
-if (True == v_2319037_25) {
-Obj v_2319038_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319039_25 = PRIM_ISCONS(v_2319038_25);
-if (True == v_2319039_25) {
-Obj v_2319040_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319041_25 = PRIM_CAR(v_2319040_25);
-Obj v_a = v_2319041_25;
-Obj v_2319042_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319043_25 = PRIM_CDR(v_2319042_25);
-Obj v_2319044_25 = PRIM_ISCONS(v_2319043_25);
-if (True == v_2319044_25) {
-Obj v_2319045_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319046_25 = PRIM_CDR(v_2319045_25);
-Obj v_2319047_25 = PRIM_CAR(v_2319046_25);
-Obj v_b = v_2319047_25;
-Obj v_2319048_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319049_25 = PRIM_CDR(v_2319048_25);
-Obj v_2319050_25 = PRIM_CDR(v_2319049_25);
-Obj v_2319051_25 = PRIM_ISCONS(v_2319050_25);
-if (True == v_2319051_25) {
-Obj v_2319052_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319053_25 = PRIM_CDR(v_2319052_25);
-Obj v_2319054_25 = PRIM_CDR(v_2319053_25);
-Obj v_2319055_25 = PRIM_CAR(v_2319054_25);
-Obj v_c = v_2319055_25;
-Obj v_2319056_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319057_25 = PRIM_CDR(v_2319056_25);
-Obj v_2319058_25 = PRIM_CDR(v_2319057_25);
-Obj v_2319059_25 = PRIM_CDR(v_2319058_25);
-Obj v_2319060_25 = PRIM_EQ(Nil, v_2319059_25);
-if (True == v_2319060_25) {
+Obj v_2317930_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319439_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319439_25) {
+Obj v_2319440_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319441_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319440_25);
+if (True == v_2319441_25) {
+Obj v_2319442_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319443_25 = PRIM_ISCONS(v_2319442_25);
+if (True == v_2319443_25) {
+Obj v_2319444_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319445_25 = PRIM_CAR(v_2319444_25);
+Obj v_a = v_2319445_25;
+Obj v_2319446_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319447_25 = PRIM_CDR(v_2319446_25);
+Obj v_2319448_25 = PRIM_ISCONS(v_2319447_25);
+if (True == v_2319448_25) {
+Obj v_2319449_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319450_25 = PRIM_CDR(v_2319449_25);
+Obj v_2319451_25 = PRIM_CAR(v_2319450_25);
+Obj v_b = v_2319451_25;
+Obj v_2319452_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319453_25 = PRIM_CDR(v_2319452_25);
+Obj v_2319454_25 = PRIM_CDR(v_2319453_25);
+Obj v_2319455_25 = PRIM_ISCONS(v_2319454_25);
+if (True == v_2319455_25) {
+Obj v_2319456_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319457_25 = PRIM_CDR(v_2319456_25);
+Obj v_2319458_25 = PRIM_CDR(v_2319457_25);
+Obj v_2319459_25 = PRIM_CAR(v_2319458_25);
+Obj v_c = v_2319459_25;
+Obj v_2319460_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319461_25 = PRIM_CDR(v_2319460_25);
+Obj v_2319462_25 = PRIM_CDR(v_2319461_25);
+Obj v_2319463_25 = PRIM_CDR(v_2319462_25);
+Obj v_2319464_25 = PRIM_EQ(Nil, v_2319463_25);
+if (True == v_2319464_25) {
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
@@ -3142,48 +3142,48 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_a, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317526_25);
+coraCall0(co, v_2317930_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317526_25);
+coraCall0(co, v_2317930_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317526_25);
+coraCall0(co, v_2317930_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317526_25);
+coraCall0(co, v_2317930_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317526_25);
+coraCall0(co, v_2317930_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317526_25);
+coraCall0(co, v_2317930_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319068_25= co->res;
+Obj v_2319472_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_2319069_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
+Obj v_2319473_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v_2319068_25, v_c, v_2319069_25);
+coraCall2(co, v_2319472_25, v_c, v_2319473_25);
 return;
 }
 case 2:
 {
-Obj v_2319067_25= co->res;
+Obj v_2319471_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
@@ -3194,7 +3194,7 @@ return;
 }
 case 3:
 {
-Obj v_2319066_25= co->res;
+Obj v_2319470_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
@@ -3205,19 +3205,19 @@ return;
 }
 case 4:
 {
-Obj v_2319065_25= co->res;
+Obj v_2319469_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun100, 3, R);
-coraCall2(co, v_2319065_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2319469_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v_2319064_25= co->res;
+Obj v_2319468_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3230,7 +3230,7 @@ return;
 }
 case 6:
 {
-Obj v_2319063_25= co->res;
+Obj v_2319467_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3243,7 +3243,7 @@ return;
 }
 case 7:
 {
-Obj v_2319062_25= co->res;
+Obj v_2319466_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3256,7 +3256,7 @@ return;
 }
 case 8:
 {
-Obj v_2319061_25= co->res;
+Obj v_2319465_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3274,31 +3274,31 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317527_25 = makeNative(co->gc, 4, clofun98, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319005_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319005_25) {
-Obj v_2319006_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319007_25 = PRIM_ISCONS(v_2319006_25);
-if (True == v_2319007_25) {
-Obj v_2319008_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319009_25 = PRIM_CAR(v_2319008_25);
-Obj v_2319010_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319009_25);
-if (True == v_2319010_25) {
-Obj v_2319011_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319012_25 = PRIM_CDR(v_2319011_25);
-Obj v_2319013_25 = PRIM_ISCONS(v_2319012_25);
-if (True == v_2319013_25) {
-Obj v_2319014_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319015_25 = PRIM_CDR(v_2319014_25);
-Obj v_2319016_25 = PRIM_CAR(v_2319015_25);
-Obj v_f = v_2319016_25;
-Obj v_2319017_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319018_25 = PRIM_CDR(v_2319017_25);
-Obj v_2319019_25 = PRIM_CDR(v_2319018_25);
-Obj v_2319020_25 = PRIM_EQ(Nil, v_2319019_25);
-if (True == v_2319020_25) {
-Obj v_2319021_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_args = v_2319021_25;
+Obj v_2317931_25 = makeNative(co->gc, 4, clofun98, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319409_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319409_25) {
+Obj v_2319410_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319411_25 = PRIM_ISCONS(v_2319410_25);
+if (True == v_2319411_25) {
+Obj v_2319412_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319413_25 = PRIM_CAR(v_2319412_25);
+Obj v_2319414_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319413_25);
+if (True == v_2319414_25) {
+Obj v_2319415_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319416_25 = PRIM_CDR(v_2319415_25);
+Obj v_2319417_25 = PRIM_ISCONS(v_2319416_25);
+if (True == v_2319417_25) {
+Obj v_2319418_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319419_25 = PRIM_CDR(v_2319418_25);
+Obj v_2319420_25 = PRIM_CAR(v_2319419_25);
+Obj v_f = v_2319420_25;
+Obj v_2319421_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319422_25 = PRIM_CDR(v_2319421_25);
+Obj v_2319423_25 = PRIM_CDR(v_2319422_25);
+Obj v_2319424_25 = PRIM_EQ(Nil, v_2319423_25);
+if (True == v_2319424_25) {
+Obj v_2319425_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2319425_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun99, 10, R);
@@ -3306,40 +3306,40 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317527_25);
+coraCall0(co, v_2317931_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317527_25);
+coraCall0(co, v_2317931_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317527_25);
+coraCall0(co, v_2317931_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317527_25);
+coraCall0(co, v_2317931_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317527_25);
+coraCall0(co, v_2317931_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319026_25= co->res;
+Obj v_2319430_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319025_25= co->res;
+Obj v_2319429_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun99, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3348,14 +3348,14 @@ return;
 }
 case 3:
 {
-Obj v_2319029_25= co->res;
+Obj v_2319433_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v_2319028_25= co->res;
+Obj v_2319432_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun99, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3364,14 +3364,14 @@ return;
 }
 case 5:
 {
-Obj v_2319032_25= co->res;
+Obj v_2319436_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v_2319031_25= co->res;
+Obj v_2319435_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun99, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3380,14 +3380,14 @@ return;
 }
 case 7:
 {
-Obj v_2319034_25= co->res;
+Obj v_2319438_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v_2319033_25= co->res;
+Obj v_2319437_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun99, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3396,25 +3396,25 @@ return;
 }
 case 9:
 {
-Obj v_2319023_25= co->res;
+Obj v_2319427_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2319024_25 = PRIM_EQ(v_f, getBinding(co, packageID, 126).name);
-if (True == v_2319024_25) {
+Obj v_2319428_25 = PRIM_EQ(v_f, getBinding(co, packageID, 126).name);
+if (True == v_2319428_25) {
 R[1] = v_args;
 saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v_2319027_25 = PRIM_EQ(v_f, getBinding(co, packageID, 114).name);
-if (True == v_2319027_25) {
+Obj v_2319431_25 = PRIM_EQ(v_f, getBinding(co, packageID, 114).name);
+if (True == v_2319431_25) {
 R[1] = v_args;
 saveCont(co, clofun99, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v_2319030_25 = PRIM_EQ(v_f, getBinding(co, packageID, 123).name);
-if (True == v_2319030_25) {
+Obj v_2319434_25 = PRIM_EQ(v_f, getBinding(co, packageID, 123).name);
+if (True == v_2319434_25) {
 R[1] = v_args;
 saveCont(co, clofun99, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
@@ -3430,13 +3430,13 @@ return;
 }
 case 10:
 {
-Obj v_2319022_25= co->res;
+Obj v_2319426_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun99, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319022_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319426_25);
 return;
 }
 }
@@ -3446,42 +3446,42 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317528_25 = makeNative(co->gc, 5, clofun97, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318970_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318970_25) {
-Obj v_2318971_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318972_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318971_25);
-if (True == v_2318972_25) {
-Obj v_2318973_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318974_25 = PRIM_ISCONS(v_2318973_25);
-if (True == v_2318974_25) {
-Obj v_2318975_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318976_25 = PRIM_CAR(v_2318975_25);
-Obj v_a = v_2318976_25;
-Obj v_2318977_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318978_25 = PRIM_CDR(v_2318977_25);
-Obj v_2318979_25 = PRIM_ISCONS(v_2318978_25);
-if (True == v_2318979_25) {
-Obj v_2318980_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318981_25 = PRIM_CDR(v_2318980_25);
-Obj v_2318982_25 = PRIM_CAR(v_2318981_25);
-Obj v_b = v_2318982_25;
-Obj v_2318983_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318984_25 = PRIM_CDR(v_2318983_25);
-Obj v_2318985_25 = PRIM_CDR(v_2318984_25);
-Obj v_2318986_25 = PRIM_ISCONS(v_2318985_25);
-if (True == v_2318986_25) {
-Obj v_2318987_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318988_25 = PRIM_CDR(v_2318987_25);
-Obj v_2318989_25 = PRIM_CDR(v_2318988_25);
-Obj v_2318990_25 = PRIM_CAR(v_2318989_25);
-Obj v_c = v_2318990_25;
-Obj v_2318991_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318992_25 = PRIM_CDR(v_2318991_25);
-Obj v_2318993_25 = PRIM_CDR(v_2318992_25);
-Obj v_2318994_25 = PRIM_CDR(v_2318993_25);
-Obj v_2318995_25 = PRIM_EQ(Nil, v_2318994_25);
-if (True == v_2318995_25) {
+Obj v_2317932_25 = makeNative(co->gc, 5, clofun97, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319374_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319374_25) {
+Obj v_2319375_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319376_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2319375_25);
+if (True == v_2319376_25) {
+Obj v_2319377_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319378_25 = PRIM_ISCONS(v_2319377_25);
+if (True == v_2319378_25) {
+Obj v_2319379_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319380_25 = PRIM_CAR(v_2319379_25);
+Obj v_a = v_2319380_25;
+Obj v_2319381_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319382_25 = PRIM_CDR(v_2319381_25);
+Obj v_2319383_25 = PRIM_ISCONS(v_2319382_25);
+if (True == v_2319383_25) {
+Obj v_2319384_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319385_25 = PRIM_CDR(v_2319384_25);
+Obj v_2319386_25 = PRIM_CAR(v_2319385_25);
+Obj v_b = v_2319386_25;
+Obj v_2319387_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319388_25 = PRIM_CDR(v_2319387_25);
+Obj v_2319389_25 = PRIM_CDR(v_2319388_25);
+Obj v_2319390_25 = PRIM_ISCONS(v_2319389_25);
+if (True == v_2319390_25) {
+Obj v_2319391_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319392_25 = PRIM_CDR(v_2319391_25);
+Obj v_2319393_25 = PRIM_CDR(v_2319392_25);
+Obj v_2319394_25 = PRIM_CAR(v_2319393_25);
+Obj v_c = v_2319394_25;
+Obj v_2319395_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319396_25 = PRIM_CDR(v_2319395_25);
+Obj v_2319397_25 = PRIM_CDR(v_2319396_25);
+Obj v_2319398_25 = PRIM_CDR(v_2319397_25);
+Obj v_2319399_25 = PRIM_EQ(Nil, v_2319398_25);
+if (True == v_2319399_25) {
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
@@ -3490,53 +3490,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317528_25);
+coraCall0(co, v_2317932_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317528_25);
+coraCall0(co, v_2317932_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317528_25);
+coraCall0(co, v_2317932_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317528_25);
+coraCall0(co, v_2317932_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317528_25);
+coraCall0(co, v_2317932_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317528_25);
+coraCall0(co, v_2317932_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319004_25= co->res;
+Obj v_2319408_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v_2319003_25= co->res;
+Obj v_2319407_25= co->res;
 Obj v_c = R[1];
 saveCont(co, clofun98, 1, R);
-coraCall2(co, v_2319003_25, v_c, closureRef(R[0], 4));
+coraCall2(co, v_2319407_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319002_25= co->res;
+Obj v_2319406_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun98, 2, R);
@@ -3545,7 +3545,7 @@ return;
 }
 case 4:
 {
-Obj v_2319001_25= co->res;
+Obj v_2319405_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun98, 3, R);
@@ -3554,17 +3554,17 @@ return;
 }
 case 5:
 {
-Obj v_2319000_25= co->res;
+Obj v_2319404_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_c;
 saveCont(co, clofun98, 4, R);
-coraCall2(co, v_2319000_25, v_b, closureRef(R[0], 4));
+coraCall2(co, v_2319404_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2318999_25= co->res;
+Obj v_2319403_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
@@ -3575,7 +3575,7 @@ return;
 }
 case 7:
 {
-Obj v_2318998_25= co->res;
+Obj v_2319402_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
@@ -3586,19 +3586,19 @@ return;
 }
 case 8:
 {
-Obj v_2318997_25= co->res;
+Obj v_2319401_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_c;
 saveCont(co, clofun98, 7, R);
-coraCall2(co, v_2318997_25, v_a, closureRef(R[0], 4));
+coraCall2(co, v_2319401_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v_2318996_25= co->res;
+Obj v_2319400_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
@@ -3616,41 +3616,41 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317529_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v_2318932_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318932_25) {
-Obj v_2318933_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318934_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318933_25);
-if (True == v_2318934_25) {
-Obj v_2318935_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318936_25 = PRIM_ISCONS(v_2318935_25);
-if (True == v_2318936_25) {
-Obj v_2318937_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318938_25 = PRIM_CAR(v_2318937_25);
-Obj v_label = v_2318938_25;
-Obj v_2318939_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318940_25 = PRIM_CDR(v_2318939_25);
-Obj v_2318941_25 = PRIM_ISCONS(v_2318940_25);
-if (True == v_2318941_25) {
-Obj v_2318942_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318943_25 = PRIM_CDR(v_2318942_25);
-Obj v_2318944_25 = PRIM_CAR(v_2318943_25);
-Obj v_nargs = v_2318944_25;
-Obj v_2318945_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318946_25 = PRIM_CDR(v_2318945_25);
-Obj v_2318947_25 = PRIM_CDR(v_2318946_25);
-Obj v_2318948_25 = PRIM_ISCONS(v_2318947_25);
-if (True == v_2318948_25) {
-Obj v_2318949_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318950_25 = PRIM_CDR(v_2318949_25);
-Obj v_2318951_25 = PRIM_CDR(v_2318950_25);
-Obj v_2318952_25 = PRIM_CAR(v_2318951_25);
-Obj v_nframe = v_2318952_25;
-Obj v_2318953_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318954_25 = PRIM_CDR(v_2318953_25);
-Obj v_2318955_25 = PRIM_CDR(v_2318954_25);
-Obj v_2318956_25 = PRIM_CDR(v_2318955_25);
-Obj v_frees = v_2318956_25;
+Obj v_2317933_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2319336_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319336_25) {
+Obj v_2319337_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319338_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319337_25);
+if (True == v_2319338_25) {
+Obj v_2319339_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319340_25 = PRIM_ISCONS(v_2319339_25);
+if (True == v_2319340_25) {
+Obj v_2319341_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319342_25 = PRIM_CAR(v_2319341_25);
+Obj v_label = v_2319342_25;
+Obj v_2319343_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319344_25 = PRIM_CDR(v_2319343_25);
+Obj v_2319345_25 = PRIM_ISCONS(v_2319344_25);
+if (True == v_2319345_25) {
+Obj v_2319346_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319347_25 = PRIM_CDR(v_2319346_25);
+Obj v_2319348_25 = PRIM_CAR(v_2319347_25);
+Obj v_nargs = v_2319348_25;
+Obj v_2319349_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319350_25 = PRIM_CDR(v_2319349_25);
+Obj v_2319351_25 = PRIM_CDR(v_2319350_25);
+Obj v_2319352_25 = PRIM_ISCONS(v_2319351_25);
+if (True == v_2319352_25) {
+Obj v_2319353_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319354_25 = PRIM_CDR(v_2319353_25);
+Obj v_2319355_25 = PRIM_CDR(v_2319354_25);
+Obj v_2319356_25 = PRIM_CAR(v_2319355_25);
+Obj v_nframe = v_2319356_25;
+Obj v_2319357_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319358_25 = PRIM_CDR(v_2319357_25);
+Obj v_2319359_25 = PRIM_CDR(v_2319358_25);
+Obj v_2319360_25 = PRIM_CDR(v_2319359_25);
+Obj v_frees = v_2319360_25;
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_nargs;
@@ -3660,40 +3660,40 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317529_25);
+coraCall0(co, v_2317933_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317529_25);
+coraCall0(co, v_2317933_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317529_25);
+coraCall0(co, v_2317933_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317529_25);
+coraCall0(co, v_2317933_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317529_25);
+coraCall0(co, v_2317933_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318969_25= co->res;
+Obj v_2319373_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2318968_25= co->res;
+Obj v_2319372_25= co->res;
 Obj v_frees = R[1];
 saveCont(co, clofun97, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
@@ -3702,10 +3702,10 @@ return;
 }
 case 3:
 {
-Obj v_2318966_25= co->res;
+Obj v_2319370_25= co->res;
 Obj v_frees = R[1];
-Obj v_2318967_25 = primNot(v_2318966_25);
-if (True == v_2318967_25) {
+Obj v_2319371_25 = primNot(v_2319370_25);
+if (True == v_2319371_25) {
 R[1] = v_frees;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -3719,7 +3719,7 @@ return;
 }
 case 4:
 {
-Obj v_2318965_25= co->res;
+Obj v_2319369_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun97, 3, R);
@@ -3728,16 +3728,16 @@ return;
 }
 case 5:
 {
-Obj v_2318964_25= co->res;
+Obj v_2319368_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2318964_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319368_25);
 return;
 }
 case 6:
 {
-Obj v_2318963_25= co->res;
+Obj v_2319367_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun97, 5, R);
@@ -3746,7 +3746,7 @@ return;
 }
 case 7:
 {
-Obj v_2318962_25= co->res;
+Obj v_2319366_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun97, 6, R);
@@ -3755,7 +3755,7 @@ return;
 }
 case 8:
 {
-Obj v_2318961_25= co->res;
+Obj v_2319365_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_frees;
@@ -3765,7 +3765,7 @@ return;
 }
 case 9:
 {
-Obj v_2318960_25= co->res;
+Obj v_2319364_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_nargs;
@@ -3776,7 +3776,7 @@ return;
 }
 case 10:
 {
-Obj v_2318959_25= co->res;
+Obj v_2319363_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
@@ -3788,7 +3788,7 @@ return;
 }
 case 11:
 {
-Obj v_2318958_25= co->res;
+Obj v_2319362_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
@@ -3801,7 +3801,7 @@ return;
 }
 case 12:
 {
-Obj v_2318957_25= co->res;
+Obj v_2319361_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_nargs = R[3];
@@ -3820,31 +3820,31 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317530_25 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2318911_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318911_25) {
-Obj v_2318912_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318913_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318912_25);
-if (True == v_2318913_25) {
-Obj v_2318914_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318915_25 = PRIM_ISCONS(v_2318914_25);
-if (True == v_2318915_25) {
-Obj v_2318916_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318917_25 = PRIM_CAR(v_2318916_25);
-Obj v_a = v_2318917_25;
-Obj v_2318918_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318919_25 = PRIM_CDR(v_2318918_25);
-Obj v_2318920_25 = PRIM_ISCONS(v_2318919_25);
-if (True == v_2318920_25) {
-Obj v_2318921_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318922_25 = PRIM_CDR(v_2318921_25);
-Obj v_2318923_25 = PRIM_CAR(v_2318922_25);
-Obj v_b = v_2318923_25;
-Obj v_2318924_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318925_25 = PRIM_CDR(v_2318924_25);
-Obj v_2318926_25 = PRIM_CDR(v_2318925_25);
-Obj v_2318927_25 = PRIM_EQ(Nil, v_2318926_25);
-if (True == v_2318927_25) {
+Obj v_2317934_25 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319315_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319315_25) {
+Obj v_2319316_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319317_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319316_25);
+if (True == v_2319317_25) {
+Obj v_2319318_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319319_25 = PRIM_ISCONS(v_2319318_25);
+if (True == v_2319319_25) {
+Obj v_2319320_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319321_25 = PRIM_CAR(v_2319320_25);
+Obj v_a = v_2319321_25;
+Obj v_2319322_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319323_25 = PRIM_CDR(v_2319322_25);
+Obj v_2319324_25 = PRIM_ISCONS(v_2319323_25);
+if (True == v_2319324_25) {
+Obj v_2319325_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319326_25 = PRIM_CDR(v_2319325_25);
+Obj v_2319327_25 = PRIM_CAR(v_2319326_25);
+Obj v_b = v_2319327_25;
+Obj v_2319328_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319329_25 = PRIM_CDR(v_2319328_25);
+Obj v_2319330_25 = PRIM_CDR(v_2319329_25);
+Obj v_2319331_25 = PRIM_EQ(Nil, v_2319330_25);
+if (True == v_2319331_25) {
 R[1] = v_a;
 R[2] = v_b;
 saveCont(co, clofun96, 4, R);
@@ -3852,41 +3852,41 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317530_25);
+coraCall0(co, v_2317934_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317530_25);
+coraCall0(co, v_2317934_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317530_25);
+coraCall0(co, v_2317934_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317530_25);
+coraCall0(co, v_2317934_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317530_25);
+coraCall0(co, v_2317934_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318931_25= co->res;
+Obj v_2319335_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, v_2318931_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2319335_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v_2318930_25= co->res;
+Obj v_2319334_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun96, 1, R);
@@ -3895,7 +3895,7 @@ return;
 }
 case 3:
 {
-Obj v_2318929_25= co->res;
+Obj v_2319333_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun96, 2, R);
@@ -3904,12 +3904,12 @@ return;
 }
 case 4:
 {
-Obj v_2318928_25= co->res;
+Obj v_2319332_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 R[1] = v_b;
 saveCont(co, clofun96, 3, R);
-coraCall2(co, v_2318928_25, v_a, closureRef(R[0], 5));
+coraCall2(co, v_2319332_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3919,72 +3919,72 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317531_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318897_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318897_25) {
-Obj v_2318898_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318899_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2318898_25);
-if (True == v_2318899_25) {
-Obj v_2318900_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318901_25 = PRIM_ISCONS(v_2318900_25);
-if (True == v_2318901_25) {
-Obj v_2318902_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318903_25 = PRIM_CAR(v_2318902_25);
-Obj v_x = v_2318903_25;
-Obj v_2318904_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318905_25 = PRIM_CDR(v_2318904_25);
-Obj v_2318906_25 = PRIM_EQ(Nil, v_2318905_25);
-if (True == v_2318906_25) {
+Obj v_2317935_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319301_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319301_25) {
+Obj v_2319302_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319303_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2319302_25);
+if (True == v_2319303_25) {
+Obj v_2319304_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319305_25 = PRIM_ISCONS(v_2319304_25);
+if (True == v_2319305_25) {
+Obj v_2319306_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319307_25 = PRIM_CAR(v_2319306_25);
+Obj v_x = v_2319307_25;
+Obj v_2319308_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319309_25 = PRIM_CDR(v_2319308_25);
+Obj v_2319310_25 = PRIM_EQ(Nil, v_2319309_25);
+if (True == v_2319310_25) {
 R[1] = v_x;
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317531_25);
+coraCall0(co, v_2317935_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317531_25);
+coraCall0(co, v_2317935_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317531_25);
+coraCall0(co, v_2317935_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317531_25);
+coraCall0(co, v_2317935_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318910_25= co->res;
+Obj v_2319314_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2318909_25= co->res;
+Obj v_2319313_25= co->res;
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v_2318908_25= co->res;
+Obj v_2319312_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun95, 2, R);
-coraCall2(co, v_2318908_25, v_x, closureRef(R[0], 4));
+coraCall2(co, v_2319312_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2318907_25= co->res;
+Obj v_2319311_25= co->res;
 Obj v_x = R[1];
 R[1] = v_x;
 saveCont(co, clofun95, 3, R);
@@ -3998,65 +3998,65 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317532_25 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318884_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318884_25) {
-Obj v_2318885_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318886_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318885_25);
-if (True == v_2318886_25) {
-Obj v_2318887_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318888_25 = PRIM_ISCONS(v_2318887_25);
-if (True == v_2318888_25) {
-Obj v_2318889_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318890_25 = PRIM_CAR(v_2318889_25);
-Obj v_exp = v_2318890_25;
-Obj v_2318891_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318892_25 = PRIM_CDR(v_2318891_25);
-Obj v_2318893_25 = PRIM_EQ(Nil, v_2318892_25);
-if (True == v_2318893_25) {
+Obj v_2317936_25 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319288_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319288_25) {
+Obj v_2319289_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319290_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319289_25);
+if (True == v_2319290_25) {
+Obj v_2319291_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319292_25 = PRIM_ISCONS(v_2319291_25);
+if (True == v_2319292_25) {
+Obj v_2319293_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319294_25 = PRIM_CAR(v_2319293_25);
+Obj v_exp = v_2319294_25;
+Obj v_2319295_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319296_25 = PRIM_CDR(v_2319295_25);
+Obj v_2319297_25 = PRIM_EQ(Nil, v_2319296_25);
+if (True == v_2319297_25) {
 R[1] = v_exp;
 saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317532_25);
+coraCall0(co, v_2317936_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317532_25);
+coraCall0(co, v_2317936_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317532_25);
+coraCall0(co, v_2317936_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317532_25);
+coraCall0(co, v_2317936_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318896_25= co->res;
+Obj v_2319300_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2318895_25= co->res;
+Obj v_2319299_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun94, 1, R);
-coraCall2(co, v_2318895_25, v_exp, closureRef(R[0], 4));
+coraCall2(co, v_2319299_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318894_25= co->res;
+Obj v_2319298_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun94, 2, R);
@@ -4070,30 +4070,30 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317533_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2318860_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318860_25) {
-Obj v_2318861_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318862_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318861_25);
-if (True == v_2318862_25) {
-Obj v_2318863_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318864_25 = PRIM_ISCONS(v_2318863_25);
-if (True == v_2318864_25) {
-Obj v_2318865_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318866_25 = PRIM_CAR(v_2318865_25);
-Obj v_exp = v_2318866_25;
-Obj v_2318867_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318868_25 = PRIM_CDR(v_2318867_25);
-Obj v_2318869_25 = PRIM_ISCONS(v_2318868_25);
-if (True == v_2318869_25) {
-Obj v_2318870_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318871_25 = PRIM_CDR(v_2318870_25);
-Obj v_2318872_25 = PRIM_CAR(v_2318871_25);
-Obj v_label = v_2318872_25;
-Obj v_2318873_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318874_25 = PRIM_CDR(v_2318873_25);
-Obj v_2318875_25 = PRIM_CDR(v_2318874_25);
-Obj v_fvs = v_2318875_25;
+Obj v_2317937_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319264_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319264_25) {
+Obj v_2319265_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319266_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319265_25);
+if (True == v_2319266_25) {
+Obj v_2319267_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319268_25 = PRIM_ISCONS(v_2319267_25);
+if (True == v_2319268_25) {
+Obj v_2319269_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319270_25 = PRIM_CAR(v_2319269_25);
+Obj v_exp = v_2319270_25;
+Obj v_2319271_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319272_25 = PRIM_CDR(v_2319271_25);
+Obj v_2319273_25 = PRIM_ISCONS(v_2319272_25);
+if (True == v_2319273_25) {
+Obj v_2319274_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319275_25 = PRIM_CDR(v_2319274_25);
+Obj v_2319276_25 = PRIM_CAR(v_2319275_25);
+Obj v_label = v_2319276_25;
+Obj v_2319277_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319278_25 = PRIM_CDR(v_2319277_25);
+Obj v_2319279_25 = PRIM_CDR(v_2319278_25);
+Obj v_fvs = v_2319279_25;
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun93, 8, R);
@@ -4102,43 +4102,43 @@ coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317533_25);
+coraCall0(co, v_2317937_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317533_25);
+coraCall0(co, v_2317937_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317533_25);
+coraCall0(co, v_2317937_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317533_25);
+coraCall0(co, v_2317937_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318883_25= co->res;
+Obj v_2319287_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2318882_25= co->res;
+Obj v_2319286_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun93, 1, R);
-coraCall2(co, v_2318882_25, v_exp, closureRef(R[0], 4));
+coraCall2(co, v_2319286_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2318881_25= co->res;
+Obj v_2319285_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun93, 2, R);
@@ -4147,7 +4147,7 @@ return;
 }
 case 4:
 {
-Obj v_2318880_25= co->res;
+Obj v_2319284_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun93, 3, R);
@@ -4156,7 +4156,7 @@ return;
 }
 case 5:
 {
-Obj v_2318879_25= co->res;
+Obj v_2319283_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
@@ -4166,7 +4166,7 @@ return;
 }
 case 6:
 {
-Obj v_2318878_25= co->res;
+Obj v_2319282_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
@@ -4177,7 +4177,7 @@ return;
 }
 case 7:
 {
-Obj v_2318877_25= co->res;
+Obj v_2319281_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
@@ -4188,7 +4188,7 @@ return;
 }
 case 8:
 {
-Obj v_2318876_25= co->res;
+Obj v_2319280_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
@@ -4204,12 +4204,12 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318837_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318837_25) {
-Obj v_2318838_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318838_25;
-Obj v_2318839_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318839_25;
+Obj v_2319241_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319241_25) {
+Obj v_2319242_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319242_25;
+Obj v_2319243_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319243_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun92, 18, R);
@@ -4223,14 +4223,14 @@ return;
 }
 case 1:
 {
-Obj v_2318851_25= co->res;
+Obj v_2319255_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v_2318850_25= co->res;
+Obj v_2319254_25= co->res;
 Obj v_nargs = R[1];
 saveCont(co, clofun92, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
@@ -4238,7 +4238,7 @@ return;
 }
 case 3:
 {
-Obj v_2318849_25= co->res;
+Obj v_2319253_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
 saveCont(co, clofun92, 2, R);
@@ -4247,17 +4247,17 @@ return;
 }
 case 4:
 {
-Obj v_2318848_25= co->res;
+Obj v_2319252_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_nargs;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, v_2318848_25, v_f, closureRef(R[0], 4));
+coraCall2(co, v_2319252_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v_2318847_25= co->res;
+Obj v_2319251_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
@@ -4268,7 +4268,7 @@ return;
 }
 case 6:
 {
-Obj v_2318846_25= co->res;
+Obj v_2319250_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
@@ -4279,7 +4279,7 @@ return;
 }
 case 7:
 {
-Obj v_2318845_25= co->res;
+Obj v_2319249_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
@@ -4290,7 +4290,7 @@ return;
 }
 case 8:
 {
-Obj v_2318844_25= co->res;
+Obj v_2319248_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4303,7 +4303,7 @@ return;
 }
 case 9:
 {
-Obj v_2318843_25= co->res;
+Obj v_2319247_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4316,7 +4316,7 @@ return;
 }
 case 10:
 {
-Obj v_2318842_25= co->res;
+Obj v_2319246_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4329,14 +4329,14 @@ return;
 }
 case 11:
 {
-Obj v_2318859_25= co->res;
+Obj v_2319263_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v_2318858_25= co->res;
+Obj v_2319262_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun92, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -4345,11 +4345,11 @@ return;
 }
 case 13:
 {
-Obj v_2318856_25= co->res;
+Obj v_2319260_25= co->res;
 Obj v_nargs = R[1];
 Obj v_args = R[2];
-Obj v_2318857_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
-if (True == v_2318857_25) {
+Obj v_2319261_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2319261_25) {
 R[1] = v_args;
 saveCont(co, clofun92, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -4363,19 +4363,19 @@ return;
 }
 case 14:
 {
-Obj v_2318855_25= co->res;
+Obj v_2319259_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_nargs;
 R[2] = v_args;
 saveCont(co, clofun92, 13, R);
-coraCall2(co, v_2318855_25, v_f, closureRef(R[0], 4));
+coraCall2(co, v_2319259_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v_2318854_25= co->res;
+Obj v_2319258_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4388,7 +4388,7 @@ return;
 }
 case 16:
 {
-Obj v_2318853_25= co->res;
+Obj v_2319257_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4401,7 +4401,7 @@ return;
 }
 case 17:
 {
-Obj v_2318852_25= co->res;
+Obj v_2319256_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4414,12 +4414,12 @@ return;
 }
 case 18:
 {
-Obj v_2318840_25= co->res;
+Obj v_2319244_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_nargs = v_2318840_25;
-Obj v_2318841_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
-if (True == v_2318841_25) {
+Obj v_nargs = v_2319244_25;
+Obj v_2319245_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2319245_25) {
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
@@ -4468,15 +4468,15 @@ return;
 }
 case 1:
 {
-Obj v_2318832_25= co->res;
+Obj v_2319236_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318833_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318833_25);
+Obj v_2319237_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319237_25);
 return;
 }
 case 2:
 {
-Obj v_2318831_25= co->res;
+Obj v_2319235_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun90, 1, R);
@@ -4485,7 +4485,7 @@ return;
 }
 case 3:
 {
-Obj v_2318830_25= co->res;
+Obj v_2319234_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun90, 2, R);
@@ -4494,7 +4494,7 @@ return;
 }
 case 4:
 {
-Obj v_2318829_25= co->res;
+Obj v_2319233_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun90, 3, R);
@@ -4503,7 +4503,7 @@ return;
 }
 case 5:
 {
-Obj v_2318828_25= co->res;
+Obj v_2319232_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4545,15 +4545,15 @@ return;
 }
 case 1:
 {
-Obj v_2318825_25= co->res;
+Obj v_2319229_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318826_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2318826_25);
+Obj v_2319230_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319230_25);
 return;
 }
 case 2:
 {
-Obj v_2318824_25= co->res;
+Obj v_2319228_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun88, 1, R);
@@ -4562,7 +4562,7 @@ return;
 }
 case 3:
 {
-Obj v_2318823_25= co->res;
+Obj v_2319227_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4573,7 +4573,7 @@ return;
 }
 case 4:
 {
-Obj v_2318822_25= co->res;
+Obj v_2319226_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4584,7 +4584,7 @@ return;
 }
 case 5:
 {
-Obj v_2318821_25= co->res;
+Obj v_2319225_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4625,24 +4625,24 @@ return;
 }
 case 1:
 {
-Obj v_2318814_25= co->res;
+Obj v_2319218_25= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v_2318814_25) {
+if (True == v_2319218_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2318815_25 = PRIM_CAR(v_globals);
-Obj v_2318816_25 = PRIM_EQ(v_sym, v_2318815_25);
-if (True == v_2318816_25) {
+Obj v_2319219_25 = PRIM_CAR(v_globals);
+Obj v_2319220_25 = PRIM_EQ(v_sym, v_2319219_25);
+if (True == v_2319220_25) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v_2318817_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v_2318818_25 = PRIM_CDR(v_globals);
+Obj v_2319221_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2319222_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2318817_25, v_sym, v_2318818_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2319221_25, v_sym, v_2319222_25);
 return;
 }
 }
@@ -4664,26 +4664,26 @@ return;
 }
 case 1:
 {
-Obj v_2318810_25= co->res;
+Obj v_2319214_25= co->res;
 Obj v_sym = R[1];
 Obj v_val = R[2];
 Obj v_globals = R[3];
-if (True == v_2318810_25) {
+if (True == v_2319214_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318811_25 = makeCons(co->gc, v_sym, v_val);
-Obj v_2318812_25 = primSet(co, v_globals, v_2318811_25);
-coraReturn(co, v_2318812_25);
+Obj v_2319215_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2319216_25 = primSet(co, v_globals, v_2319215_25);
+coraReturn(co, v_2319216_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2318809_25= co->res;
+Obj v_2319213_25= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v_val = v_2318809_25;
+Obj v_val = v_2319213_25;
 R[1] = v_sym;
 R[2] = v_val;
 R[3] = v_globals;
@@ -4700,8 +4700,8 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v_2318802_25 = primGenSym(co);
-Obj v_tmp = v_2318802_25;
+Obj v_2319206_25 = primGenSym(co);
+Obj v_tmp = v_2319206_25;
 R[1] = v_x;
 R[2] = v_tmp;
 saveCont(co, clofun84, 1, R);
@@ -4710,14 +4710,14 @@ return;
 }
 case 1:
 {
-Obj v_2318803_25= co->res;
+Obj v_2319207_25= co->res;
 Obj v_x = R[1];
 Obj v_tmp = R[2];
-Obj v_2318804_25 = makeCons(co->gc, v_2318803_25, Nil);
-Obj v_2318805_25 = makeCons(co->gc, v_x, v_2318804_25);
-Obj v_2318806_25 = makeCons(co->gc, v_tmp, v_2318805_25);
-Obj v_2318807_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318806_25);
-coraReturn(co, v_2318807_25);
+Obj v_2319208_25 = makeCons(co->gc, v_2319207_25, Nil);
+Obj v_2319209_25 = makeCons(co->gc, v_x, v_2319208_25);
+Obj v_2319210_25 = makeCons(co->gc, v_tmp, v_2319209_25);
+Obj v_2319211_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2319210_25);
+coraReturn(co, v_2319211_25);
 return;
 }
 }
@@ -4737,7 +4737,7 @@ return;
 }
 case 1:
 {
-Obj v_2318800_25= co->res;
+Obj v_2319204_25= co->res;
 Obj v_v = R[1];
 Obj v_cur1 = R[2];
 co->ctx.sp = R;
@@ -4746,28 +4746,28 @@ return;
 }
 case 2:
 {
-Obj v_2318795_25= co->res;
+Obj v_2319199_25= co->res;
 Obj v_val = R[1];
 Obj v_idx = R[2];
 Obj v_v = R[3];
-Obj v_cur = v_2318795_25;
-Obj v_2318796_25 = makeCons(co->gc, v_val, Nil);
-Obj v_2318797_25 = makeCons(co->gc, v_idx, v_2318796_25);
-Obj v_2318798_25 = makeCons(co->gc, v_2318797_25, v_cur);
-Obj v_cur1 = v_2318798_25;
-Obj v_2318799_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_cur = v_2319199_25;
+Obj v_2319200_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2319201_25 = makeCons(co->gc, v_idx, v_2319200_25);
+Obj v_2319202_25 = makeCons(co->gc, v_2319201_25, v_cur);
+Obj v_cur1 = v_2319202_25;
+Obj v_2319203_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
 R[1] = v_v;
 R[2] = v_cur1;
 saveCont(co, clofun83, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2318799_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2319203_25);
 return;
 }
 case 3:
 {
-Obj v_2318794_25= co->res;
+Obj v_2319198_25= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v_idx = v_2318794_25;
+Obj v_idx = v_2319198_25;
 R[1] = v_val;
 R[2] = v_idx;
 R[3] = v_v;
@@ -4782,121 +4782,121 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317518_25 = R[1];
-Obj v_2317519_25 = R[2];
-Obj v_2317520_25 = makeNative(co->gc, 1, clofun81, 0, 2, v_2317518_25, v_2317519_25);
-Obj v_2318745_25 = PRIM_ISCONS(v_2317519_25);
-if (True == v_2318745_25) {
-Obj v_2318746_25 = PRIM_CAR(v_2317519_25);
-Obj v_2318747_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318746_25);
-if (True == v_2318747_25) {
-Obj v_2318748_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318749_25 = PRIM_ISCONS(v_2318748_25);
-if (True == v_2318749_25) {
-Obj v_2318750_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318751_25 = PRIM_CAR(v_2318750_25);
-Obj v_2318752_25 = PRIM_ISCONS(v_2318751_25);
-if (True == v_2318752_25) {
-Obj v_2318753_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318754_25 = PRIM_CAR(v_2318753_25);
-Obj v_2318755_25 = PRIM_CAR(v_2318754_25);
-Obj v_2318756_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318755_25);
-if (True == v_2318756_25) {
-Obj v_2318757_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318758_25 = PRIM_CAR(v_2318757_25);
-Obj v_2318759_25 = PRIM_CDR(v_2318758_25);
-Obj v_2318760_25 = PRIM_ISCONS(v_2318759_25);
-if (True == v_2318760_25) {
-Obj v_2318761_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318762_25 = PRIM_CAR(v_2318761_25);
-Obj v_2318763_25 = PRIM_CDR(v_2318762_25);
-Obj v_2318764_25 = PRIM_CAR(v_2318763_25);
-Obj v_params = v_2318764_25;
-Obj v_2318765_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318766_25 = PRIM_CAR(v_2318765_25);
-Obj v_2318767_25 = PRIM_CDR(v_2318766_25);
-Obj v_2318768_25 = PRIM_CDR(v_2318767_25);
-Obj v_2318769_25 = PRIM_ISCONS(v_2318768_25);
-if (True == v_2318769_25) {
-Obj v_2318770_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318771_25 = PRIM_CAR(v_2318770_25);
-Obj v_2318772_25 = PRIM_CDR(v_2318771_25);
-Obj v_2318773_25 = PRIM_CDR(v_2318772_25);
-Obj v_2318774_25 = PRIM_CAR(v_2318773_25);
-Obj v_body = v_2318774_25;
-Obj v_2318775_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318776_25 = PRIM_CAR(v_2318775_25);
-Obj v_2318777_25 = PRIM_CDR(v_2318776_25);
-Obj v_2318778_25 = PRIM_CDR(v_2318777_25);
-Obj v_2318779_25 = PRIM_CDR(v_2318778_25);
-Obj v_2318780_25 = PRIM_EQ(Nil, v_2318779_25);
-if (True == v_2318780_25) {
-Obj v_2318781_25 = PRIM_CDR(v_2317519_25);
-Obj v_2318782_25 = PRIM_CDR(v_2318781_25);
-Obj v_fvs = v_2318782_25;
-R[1] = v_2317518_25;
+Obj v_2317922_25 = R[1];
+Obj v_2317923_25 = R[2];
+Obj v_2317924_25 = makeNative(co->gc, 1, clofun81, 0, 2, v_2317922_25, v_2317923_25);
+Obj v_2319149_25 = PRIM_ISCONS(v_2317923_25);
+if (True == v_2319149_25) {
+Obj v_2319150_25 = PRIM_CAR(v_2317923_25);
+Obj v_2319151_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319150_25);
+if (True == v_2319151_25) {
+Obj v_2319152_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319153_25 = PRIM_ISCONS(v_2319152_25);
+if (True == v_2319153_25) {
+Obj v_2319154_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319155_25 = PRIM_CAR(v_2319154_25);
+Obj v_2319156_25 = PRIM_ISCONS(v_2319155_25);
+if (True == v_2319156_25) {
+Obj v_2319157_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319158_25 = PRIM_CAR(v_2319157_25);
+Obj v_2319159_25 = PRIM_CAR(v_2319158_25);
+Obj v_2319160_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2319159_25);
+if (True == v_2319160_25) {
+Obj v_2319161_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319162_25 = PRIM_CAR(v_2319161_25);
+Obj v_2319163_25 = PRIM_CDR(v_2319162_25);
+Obj v_2319164_25 = PRIM_ISCONS(v_2319163_25);
+if (True == v_2319164_25) {
+Obj v_2319165_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319166_25 = PRIM_CAR(v_2319165_25);
+Obj v_2319167_25 = PRIM_CDR(v_2319166_25);
+Obj v_2319168_25 = PRIM_CAR(v_2319167_25);
+Obj v_params = v_2319168_25;
+Obj v_2319169_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319170_25 = PRIM_CAR(v_2319169_25);
+Obj v_2319171_25 = PRIM_CDR(v_2319170_25);
+Obj v_2319172_25 = PRIM_CDR(v_2319171_25);
+Obj v_2319173_25 = PRIM_ISCONS(v_2319172_25);
+if (True == v_2319173_25) {
+Obj v_2319174_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319175_25 = PRIM_CAR(v_2319174_25);
+Obj v_2319176_25 = PRIM_CDR(v_2319175_25);
+Obj v_2319177_25 = PRIM_CDR(v_2319176_25);
+Obj v_2319178_25 = PRIM_CAR(v_2319177_25);
+Obj v_body = v_2319178_25;
+Obj v_2319179_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319180_25 = PRIM_CAR(v_2319179_25);
+Obj v_2319181_25 = PRIM_CDR(v_2319180_25);
+Obj v_2319182_25 = PRIM_CDR(v_2319181_25);
+Obj v_2319183_25 = PRIM_CDR(v_2319182_25);
+Obj v_2319184_25 = PRIM_EQ(Nil, v_2319183_25);
+if (True == v_2319184_25) {
+Obj v_2319185_25 = PRIM_CDR(v_2317923_25);
+Obj v_2319186_25 = PRIM_CDR(v_2319185_25);
+Obj v_fvs = v_2319186_25;
+R[1] = v_2317922_25;
 R[2] = v_params;
 R[3] = v_fvs;
 saveCont(co, clofun82, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2317518_25, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2317922_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317520_25);
+coraCall0(co, v_2317924_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318788_25= co->res;
+Obj v_2319192_25= co->res;
 Obj v_nframe = R[1];
 Obj v_fvs = R[2];
 Obj v_cur = R[3];
-Obj v_2318789_25 = makeCons(co->gc, v_nframe, v_fvs);
-Obj v_2318790_25 = makeCons(co->gc, v_2318788_25, v_2318789_25);
-Obj v_2318791_25 = makeCons(co->gc, v_cur, v_2318790_25);
-Obj v_2318792_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318791_25);
-coraReturn(co, v_2318792_25);
+Obj v_2319193_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2319194_25 = makeCons(co->gc, v_2319192_25, v_2319193_25);
+Obj v_2319195_25 = makeCons(co->gc, v_cur, v_2319194_25);
+Obj v_2319196_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2319195_25);
+coraReturn(co, v_2319196_25);
 return;
 }
 case 2:
 {
-Obj v_2318787_25= co->res;
+Obj v_2319191_25= co->res;
 Obj v_params = R[1];
 Obj v_nframe = R[2];
 Obj v_fvs = R[3];
@@ -4910,30 +4910,30 @@ return;
 }
 case 3:
 {
-Obj v_2318786_25= co->res;
-Obj v_2317518_25 = R[1];
+Obj v_2319190_25= co->res;
+Obj v_2317922_25 = R[1];
 Obj v_body2 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
 Obj v_cur = R[5];
-Obj v_nframe = v_2318786_25;
+Obj v_nframe = v_2319190_25;
 R[1] = v_params;
 R[2] = v_nframe;
 R[3] = v_fvs;
 R[4] = v_cur;
 saveCont(co, clofun82, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2317518_25, v_body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2317922_25, v_body2);
 return;
 }
 case 4:
 {
-Obj v_2318785_25= co->res;
-Obj v_2317518_25 = R[1];
+Obj v_2319189_25= co->res;
+Obj v_2317922_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
 Obj v_cur = R[4];
-Obj v_body2 = v_2318785_25;
-R[1] = v_2317518_25;
+Obj v_body2 = v_2319189_25;
+R[1] = v_2317922_25;
 R[2] = v_body2;
 R[3] = v_params;
 R[4] = v_fvs;
@@ -4944,13 +4944,13 @@ return;
 }
 case 5:
 {
-Obj v_2318784_25= co->res;
+Obj v_2319188_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2317518_25 = R[2];
+Obj v_2317922_25 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
-Obj v_cur = v_2318784_25;
-R[1] = v_2317518_25;
+Obj v_cur = v_2319188_25;
+R[1] = v_2317922_25;
 R[2] = v_params;
 R[3] = v_fvs;
 R[4] = v_cur;
@@ -4960,17 +4960,17 @@ return;
 }
 case 6:
 {
-Obj v_2318783_25= co->res;
-Obj v_2317518_25 = R[1];
+Obj v_2319187_25= co->res;
+Obj v_2317922_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
-Obj v_body1 = v_2318783_25;
+Obj v_body1 = v_2319187_25;
 R[1] = v_body1;
-R[2] = v_2317518_25;
+R[2] = v_2317922_25;
 R[3] = v_params;
 R[4] = v_fvs;
 saveCont(co, clofun82, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2317518_25, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2317922_25, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4980,8 +4980,8 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318743_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318743_25) {
+Obj v_2319147_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319147_25) {
 saveCont(co, clofun81, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4992,9 +4992,9 @@ return;
 }
 case 1:
 {
-Obj v_2318744_25= co->res;
+Obj v_2319148_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318744_25, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319148_25, closureRef(R[0], 1));
 return;
 }
 }
@@ -5012,30 +5012,30 @@ return;
 }
 case 1:
 {
-Obj v_2318741_25= co->res;
-Obj v_2318740_25 = R[1];
+Obj v_2319145_25= co->res;
+Obj v_2319144_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun79, 2, 0), v_2318740_25, v_2318741_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun79, 2, 0), v_2319144_25, v_2319145_25);
 return;
 }
 case 2:
 {
-Obj v_2318735_25= co->res;
+Obj v_2319139_25= co->res;
 Obj v_lam = R[1];
-Obj v_nargs = v_2318735_25;
-Obj v_2318740_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
-R[1] = v_2318740_25;
+Obj v_nargs = v_2319139_25;
+Obj v_2319144_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2319144_25;
 saveCont(co, clofun80, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj v_2318734_25= co->res;
+Obj v_2319138_25= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
 saveCont(co, clofun80, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2318734_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2319138_25);
 return;
 }
 }
@@ -5054,12 +5054,12 @@ return;
 }
 case 1:
 {
-Obj v_2318737_25= co->res;
+Obj v_2319141_25= co->res;
 Obj v_acc = R[1];
-Obj v_2318738_25 = PRIM_ADD(v_2318737_25, MAKE_NUMBER(1));
-Obj v_len = v_2318738_25;
-Obj v_2318739_25 = PRIM_GT(v_len, v_acc);
-if (True == v_2318739_25) {
+Obj v_2319142_25 = PRIM_ADD(v_2319141_25, MAKE_NUMBER(1));
+Obj v_len = v_2319142_25;
+Obj v_2319143_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2319143_25) {
 coraReturn(co, v_len);
 return;
 } else {
@@ -5069,11 +5069,11 @@ return;
 }
 case 2:
 {
-Obj v_2318736_25= co->res;
+Obj v_2319140_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2318736_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2319140_25);
 return;
 }
 }
@@ -5105,12 +5105,12 @@ return;
 }
 case 1:
 {
-Obj v_2318729_25= co->res;
+Obj v_2319133_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2318730_25 = makeCons(co->gc, v_body1, v_2318729_25);
-Obj v_2318731_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318730_25);
-Obj v_2318732_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318731_25);
-coraReturn(co, v_2318732_25);
+Obj v_2319134_25 = makeCons(co->gc, v_body1, v_2319133_25);
+Obj v_2319135_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319134_25);
+Obj v_2319136_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2319135_25);
+coraReturn(co, v_2319136_25);
 return;
 }
 }
@@ -5120,24 +5120,24 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317512_25 = R[1];
-Obj v_2317513_25 = R[2];
-Obj v_2317514_25 = R[3];
-Obj v_2317515_25 = R[4];
-Obj v_2318723_25 = PRIM_EQ(Nil, v_2317512_25);
-if (True == v_2318723_25) {
+Obj v_2317916_25 = R[1];
+Obj v_2317917_25 = R[2];
+Obj v_2317918_25 = R[3];
+Obj v_2317919_25 = R[4];
+Obj v_2319127_25 = PRIM_EQ(Nil, v_2317916_25);
+if (True == v_2319127_25) {
 co->ctx.sp = R;
-coraCall2(co, v_2317515_25, v_2317514_25, v_2317513_25);
+coraCall2(co, v_2317919_25, v_2317918_25, v_2317917_25);
 return;
 } else {
-Obj v_2318724_25 = PRIM_ISCONS(v_2317512_25);
-if (True == v_2318724_25) {
-Obj v_2318725_25 = PRIM_CAR(v_2317512_25);
-Obj v_f = v_2318725_25;
-Obj v_2318726_25 = PRIM_CDR(v_2317512_25);
-Obj v_args = v_2318726_25;
+Obj v_2319128_25 = PRIM_ISCONS(v_2317916_25);
+if (True == v_2319128_25) {
+Obj v_2319129_25 = PRIM_CAR(v_2317916_25);
+Obj v_f = v_2319129_25;
+Obj v_2319130_25 = PRIM_CDR(v_2317916_25);
+Obj v_args = v_2319130_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2317513_25, makeNative(co->gc, 3, clofun75, 2, 3, v_args, v_2317514_25, v_2317515_25));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2317917_25, makeNative(co->gc, 3, clofun75, 2, 3, v_args, v_2317918_25, v_2317919_25));
 return;
 } else {
 co->ctx.sp = R;
@@ -5168,9 +5168,9 @@ case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v_2318727_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v_2319131_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2318727_25, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v_2319131_25, v_conts2);
 return;
 }
 }
@@ -5180,33 +5180,33 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317506_25 = R[1];
-Obj v_2317507_25 = R[2];
-Obj v_2317508_25 = R[3];
-Obj v_2317658_25 = makeNative(co->gc, 2, clofun72, 1, 3, v_2317506_25, v_2317507_25, v_2317508_25);
-Obj v_2318720_25 = primIsSymbol(v_2317506_25);
-if (True == v_2318720_25) {
+Obj v_2317910_25 = R[1];
+Obj v_2317911_25 = R[2];
+Obj v_2317912_25 = R[3];
+Obj v_2318062_25 = makeNative(co->gc, 2, clofun72, 1, 3, v_2317910_25, v_2317911_25, v_2317912_25);
+Obj v_2319124_25 = primIsSymbol(v_2317910_25);
+if (True == v_2319124_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317658_25, True);
+coraCall1(co, v_2318062_25, True);
 return;
 } else {
-R[1] = v_2317658_25;
+R[1] = v_2318062_25;
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317506_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317910_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318721_25= co->res;
-Obj v_2317658_25 = R[1];
-if (True == v_2318721_25) {
+Obj v_2319125_25= co->res;
+Obj v_2318062_25 = R[1];
+if (True == v_2319125_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317658_25, True);
+coraCall1(co, v_2318062_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317658_25, False);
+coraCall1(co, v_2318062_25, False);
 return;
 }
 }
@@ -5217,63 +5217,63 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317659_25 = R[1];
-if (True == v_2317659_25) {
+Obj v_2318063_25 = R[1];
+if (True == v_2318063_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2317510_25 = makeNative(co->gc, 1, clofun70, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2318696_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318696_25) {
-Obj v_2318697_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318698_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318697_25);
-if (True == v_2318698_25) {
-Obj v_2318699_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318700_25 = PRIM_ISCONS(v_2318699_25);
-if (True == v_2318700_25) {
-Obj v_2318701_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318702_25 = PRIM_CAR(v_2318701_25);
-Obj v_exp = v_2318702_25;
-Obj v_2318703_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318704_25 = PRIM_CDR(v_2318703_25);
-Obj v_2318705_25 = PRIM_ISCONS(v_2318704_25);
-if (True == v_2318705_25) {
-Obj v_2318706_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318707_25 = PRIM_CDR(v_2318706_25);
-Obj v_2318708_25 = PRIM_CAR(v_2318707_25);
-Obj v_cont = v_2318708_25;
-Obj v_2318709_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318710_25 = PRIM_CDR(v_2318709_25);
-Obj v_2318711_25 = PRIM_CDR(v_2318710_25);
-Obj v_2318712_25 = PRIM_EQ(Nil, v_2318711_25);
-if (True == v_2318712_25) {
+Obj v_2317914_25 = makeNative(co->gc, 1, clofun70, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319100_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319100_25) {
+Obj v_2319101_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319102_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319101_25);
+if (True == v_2319102_25) {
+Obj v_2319103_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319104_25 = PRIM_ISCONS(v_2319103_25);
+if (True == v_2319104_25) {
+Obj v_2319105_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319106_25 = PRIM_CAR(v_2319105_25);
+Obj v_exp = v_2319106_25;
+Obj v_2319107_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319108_25 = PRIM_CDR(v_2319107_25);
+Obj v_2319109_25 = PRIM_ISCONS(v_2319108_25);
+if (True == v_2319109_25) {
+Obj v_2319110_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319111_25 = PRIM_CDR(v_2319110_25);
+Obj v_2319112_25 = PRIM_CAR(v_2319111_25);
+Obj v_cont = v_2319112_25;
+Obj v_2319113_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319114_25 = PRIM_CDR(v_2319113_25);
+Obj v_2319115_25 = PRIM_CDR(v_2319114_25);
+Obj v_2319116_25 = PRIM_EQ(Nil, v_2319115_25);
+if (True == v_2319116_25) {
 co->ctx.sp = R;
 coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun71, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317510_25);
+coraCall0(co, v_2317914_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317510_25);
+coraCall0(co, v_2317914_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317510_25);
+coraCall0(co, v_2317914_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317510_25);
+coraCall0(co, v_2317914_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317510_25);
+coraCall0(co, v_2317914_25);
 return;
 }
 }
@@ -5295,25 +5295,25 @@ return;
 }
 case 1:
 {
-Obj v_2318714_25= co->res;
+Obj v_2319118_25= co->res;
 Obj v_fvs = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v_2318715_25 = PRIM_ADD(v_2318714_25, MAKE_NUMBER(1));
-Obj v_2318716_25 = makeCons(co->gc, v_2318715_25, v_fvs);
-Obj v_2318717_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318716_25);
-Obj v_2318718_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318717_25);
-Obj v_2318719_25 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v_2319119_25 = PRIM_ADD(v_2319118_25, MAKE_NUMBER(1));
+Obj v_2319120_25 = makeCons(co->gc, v_2319119_25, v_fvs);
+Obj v_2319121_25 = makeCons(co->gc, closureRef(R[0], 1), v_2319120_25);
+Obj v_2319122_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319121_25);
+Obj v_2319123_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2318718_25, v_2318719_25);
+coraCall2(co, closureRef(R[0], 0), v_2319122_25, v_2319123_25);
 return;
 }
 case 2:
 {
-Obj v_2318713_25= co->res;
+Obj v_2319117_25= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v_fvs = v_2318713_25;
+Obj v_fvs = v_2319117_25;
 R[1] = v_fvs;
 R[2] = v_cont1;
 R[3] = v_conts1;
@@ -5328,15 +5328,15 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318692_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318692_25) {
-Obj v_2318693_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318693_25;
-Obj v_2318694_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318694_25;
-Obj v_2318695_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319096_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319096_25) {
+Obj v_2319097_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319097_25;
+Obj v_2319098_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319098_25;
+Obj v_2319099_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2318695_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2319099_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5351,90 +5351,90 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317498_25 = R[1];
-Obj v_2317499_25 = R[2];
-R[1] = v_2317499_25;
-R[2] = v_2317498_25;
+Obj v_2317902_25 = R[1];
+Obj v_2317903_25 = R[2];
+R[1] = v_2317903_25;
+R[2] = v_2317902_25;
 saveCont(co, clofun69, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317499_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317903_25);
 return;
 }
 case 1:
 {
-Obj v_2318687_25= co->res;
+Obj v_2319091_25= co->res;
 Obj v_args = R[1];
-Obj v_2318688_25 = makeCons(co->gc, v_2318687_25, Nil);
-Obj v_2318689_25 = makeCons(co->gc, v_args, v_2318688_25);
-Obj v_2318690_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318689_25);
-coraReturn(co, v_2318690_25);
+Obj v_2319092_25 = makeCons(co->gc, v_2319091_25, Nil);
+Obj v_2319093_25 = makeCons(co->gc, v_args, v_2319092_25);
+Obj v_2319094_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2319093_25);
+coraReturn(co, v_2319094_25);
 return;
 }
 case 2:
 {
-Obj v_2318615_25= co->res;
-Obj v_2317499_25 = R[1];
-Obj v_2317498_25 = R[2];
-if (True == v_2318615_25) {
-coraReturn(co, v_2317499_25);
+Obj v_2319019_25= co->res;
+Obj v_2317903_25 = R[1];
+Obj v_2317902_25 = R[2];
+if (True == v_2319019_25) {
+coraReturn(co, v_2317903_25);
 return;
 } else {
-Obj v_2318616_25 = primIsSymbol(v_2317499_25);
-if (True == v_2318616_25) {
-coraReturn(co, v_2317499_25);
+Obj v_2319020_25 = primIsSymbol(v_2317903_25);
+if (True == v_2319020_25) {
+coraReturn(co, v_2317903_25);
 return;
 } else {
-Obj v_2317502_25 = makeNative(co->gc, 4, clofun68, 0, 2, v_2317499_25, v_2317498_25);
-Obj v_2318670_25 = PRIM_ISCONS(v_2317499_25);
-if (True == v_2318670_25) {
-Obj v_2318671_25 = PRIM_CAR(v_2317499_25);
-Obj v_2318672_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318671_25);
-if (True == v_2318672_25) {
-Obj v_2318673_25 = PRIM_CDR(v_2317499_25);
-Obj v_2318674_25 = PRIM_ISCONS(v_2318673_25);
-if (True == v_2318674_25) {
-Obj v_2318675_25 = PRIM_CDR(v_2317499_25);
-Obj v_2318676_25 = PRIM_CAR(v_2318675_25);
-Obj v_args = v_2318676_25;
-Obj v_2318677_25 = PRIM_CDR(v_2317499_25);
-Obj v_2318678_25 = PRIM_CDR(v_2318677_25);
-Obj v_2318679_25 = PRIM_ISCONS(v_2318678_25);
-if (True == v_2318679_25) {
-Obj v_2318680_25 = PRIM_CDR(v_2317499_25);
-Obj v_2318681_25 = PRIM_CDR(v_2318680_25);
-Obj v_2318682_25 = PRIM_CAR(v_2318681_25);
-Obj v_body = v_2318682_25;
-Obj v_2318683_25 = PRIM_CDR(v_2317499_25);
-Obj v_2318684_25 = PRIM_CDR(v_2318683_25);
-Obj v_2318685_25 = PRIM_CDR(v_2318684_25);
-Obj v_2318686_25 = PRIM_EQ(Nil, v_2318685_25);
-if (True == v_2318686_25) {
+Obj v_2317906_25 = makeNative(co->gc, 4, clofun68, 0, 2, v_2317903_25, v_2317902_25);
+Obj v_2319074_25 = PRIM_ISCONS(v_2317903_25);
+if (True == v_2319074_25) {
+Obj v_2319075_25 = PRIM_CAR(v_2317903_25);
+Obj v_2319076_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2319075_25);
+if (True == v_2319076_25) {
+Obj v_2319077_25 = PRIM_CDR(v_2317903_25);
+Obj v_2319078_25 = PRIM_ISCONS(v_2319077_25);
+if (True == v_2319078_25) {
+Obj v_2319079_25 = PRIM_CDR(v_2317903_25);
+Obj v_2319080_25 = PRIM_CAR(v_2319079_25);
+Obj v_args = v_2319080_25;
+Obj v_2319081_25 = PRIM_CDR(v_2317903_25);
+Obj v_2319082_25 = PRIM_CDR(v_2319081_25);
+Obj v_2319083_25 = PRIM_ISCONS(v_2319082_25);
+if (True == v_2319083_25) {
+Obj v_2319084_25 = PRIM_CDR(v_2317903_25);
+Obj v_2319085_25 = PRIM_CDR(v_2319084_25);
+Obj v_2319086_25 = PRIM_CAR(v_2319085_25);
+Obj v_body = v_2319086_25;
+Obj v_2319087_25 = PRIM_CDR(v_2317903_25);
+Obj v_2319088_25 = PRIM_CDR(v_2319087_25);
+Obj v_2319089_25 = PRIM_CDR(v_2319088_25);
+Obj v_2319090_25 = PRIM_EQ(Nil, v_2319089_25);
+if (True == v_2319090_25) {
 R[1] = v_args;
 saveCont(co, clofun69, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2317498_25, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2317902_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317502_25);
+coraCall0(co, v_2317906_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317502_25);
+coraCall0(co, v_2317906_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317502_25);
+coraCall0(co, v_2317906_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317502_25);
+coraCall0(co, v_2317906_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317502_25);
+coraCall0(co, v_2317906_25);
 return;
 }
 }
@@ -5447,31 +5447,31 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317503_25 = makeNative(co->gc, 3, clofun67, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318645_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318645_25) {
-Obj v_2318646_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318647_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318646_25);
-if (True == v_2318647_25) {
-Obj v_2318648_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318649_25 = PRIM_ISCONS(v_2318648_25);
-if (True == v_2318649_25) {
-Obj v_2318650_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318651_25 = PRIM_CAR(v_2318650_25);
-Obj v_val = v_2318651_25;
-Obj v_2318652_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318653_25 = PRIM_CDR(v_2318652_25);
-Obj v_2318654_25 = PRIM_ISCONS(v_2318653_25);
-if (True == v_2318654_25) {
-Obj v_2318655_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318656_25 = PRIM_CDR(v_2318655_25);
-Obj v_2318657_25 = PRIM_CAR(v_2318656_25);
-Obj v_body = v_2318657_25;
-Obj v_2318658_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318659_25 = PRIM_CDR(v_2318658_25);
-Obj v_2318660_25 = PRIM_CDR(v_2318659_25);
-Obj v_2318661_25 = PRIM_EQ(Nil, v_2318660_25);
-if (True == v_2318661_25) {
+Obj v_2317907_25 = makeNative(co->gc, 3, clofun67, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319049_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319049_25) {
+Obj v_2319050_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319051_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2319050_25);
+if (True == v_2319051_25) {
+Obj v_2319052_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319053_25 = PRIM_ISCONS(v_2319052_25);
+if (True == v_2319053_25) {
+Obj v_2319054_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319055_25 = PRIM_CAR(v_2319054_25);
+Obj v_val = v_2319055_25;
+Obj v_2319056_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319057_25 = PRIM_CDR(v_2319056_25);
+Obj v_2319058_25 = PRIM_ISCONS(v_2319057_25);
+if (True == v_2319058_25) {
+Obj v_2319059_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319060_25 = PRIM_CDR(v_2319059_25);
+Obj v_2319061_25 = PRIM_CAR(v_2319060_25);
+Obj v_body = v_2319061_25;
+Obj v_2319062_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319063_25 = PRIM_CDR(v_2319062_25);
+Obj v_2319064_25 = PRIM_CDR(v_2319063_25);
+Obj v_2319065_25 = PRIM_EQ(Nil, v_2319064_25);
+if (True == v_2319065_25) {
 R[1] = v_body;
 R[2] = v_val;
 saveCont(co, clofun68, 5, R);
@@ -5479,48 +5479,48 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317503_25);
+coraCall0(co, v_2317907_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317503_25);
+coraCall0(co, v_2317907_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317503_25);
+coraCall0(co, v_2317907_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317503_25);
+coraCall0(co, v_2317907_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317503_25);
+coraCall0(co, v_2317907_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318666_25= co->res;
+Obj v_2319070_25= co->res;
 Obj v_fvs2 = R[1];
 Obj v_val = R[2];
-Obj v_2318667_25 = makeCons(co->gc, v_2318666_25, v_fvs2);
-Obj v_2318668_25 = makeCons(co->gc, v_val, v_2318667_25);
-Obj v_2318669_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318668_25);
-coraReturn(co, v_2318669_25);
+Obj v_2319071_25 = makeCons(co->gc, v_2319070_25, v_fvs2);
+Obj v_2319072_25 = makeCons(co->gc, v_val, v_2319071_25);
+Obj v_2319073_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2319072_25);
+coraReturn(co, v_2319073_25);
 return;
 }
 case 2:
 {
-Obj v_2318665_25= co->res;
+Obj v_2319069_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
-Obj v_fvs2 = v_2318665_25;
+Obj v_fvs2 = v_2319069_25;
 R[1] = v_fvs2;
 R[2] = v_val;
 saveCont(co, clofun68, 1, R);
@@ -5529,7 +5529,7 @@ return;
 }
 case 3:
 {
-Obj v_2318664_25= co->res;
+Obj v_2319068_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
@@ -5537,15 +5537,15 @@ R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
 saveCont(co, clofun68, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318664_25, v_fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319068_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2318663_25= co->res;
+Obj v_2319067_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
-Obj v_fvs1 = v_2318663_25;
+Obj v_fvs1 = v_2319067_25;
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
@@ -5555,13 +5555,13 @@ return;
 }
 case 5:
 {
-Obj v_2318662_25= co->res;
+Obj v_2319066_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
 R[1] = v_body;
 R[2] = v_val;
 saveCont(co, clofun68, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318662_25, v_val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2319066_25, v_val);
 return;
 }
 }
@@ -5571,31 +5571,31 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317504_25 = makeNative(co->gc, 3, clofun66, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318622_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318622_25) {
-Obj v_2318623_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318624_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318623_25);
-if (True == v_2318624_25) {
-Obj v_2318625_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318626_25 = PRIM_ISCONS(v_2318625_25);
-if (True == v_2318626_25) {
-Obj v_2318627_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318628_25 = PRIM_CAR(v_2318627_25);
-Obj v_exp = v_2318628_25;
-Obj v_2318629_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318630_25 = PRIM_CDR(v_2318629_25);
-Obj v_2318631_25 = PRIM_ISCONS(v_2318630_25);
-if (True == v_2318631_25) {
-Obj v_2318632_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318633_25 = PRIM_CDR(v_2318632_25);
-Obj v_2318634_25 = PRIM_CAR(v_2318633_25);
-Obj v_cont = v_2318634_25;
-Obj v_2318635_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318636_25 = PRIM_CDR(v_2318635_25);
-Obj v_2318637_25 = PRIM_CDR(v_2318636_25);
-Obj v_2318638_25 = PRIM_EQ(Nil, v_2318637_25);
-if (True == v_2318638_25) {
+Obj v_2317908_25 = makeNative(co->gc, 3, clofun66, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319026_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319026_25) {
+Obj v_2319027_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319028_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319027_25);
+if (True == v_2319028_25) {
+Obj v_2319029_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319030_25 = PRIM_ISCONS(v_2319029_25);
+if (True == v_2319030_25) {
+Obj v_2319031_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319032_25 = PRIM_CAR(v_2319031_25);
+Obj v_exp = v_2319032_25;
+Obj v_2319033_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319034_25 = PRIM_CDR(v_2319033_25);
+Obj v_2319035_25 = PRIM_ISCONS(v_2319034_25);
+if (True == v_2319035_25) {
+Obj v_2319036_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319037_25 = PRIM_CDR(v_2319036_25);
+Obj v_2319038_25 = PRIM_CAR(v_2319037_25);
+Obj v_cont = v_2319038_25;
+Obj v_2319039_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319040_25 = PRIM_CDR(v_2319039_25);
+Obj v_2319041_25 = PRIM_CDR(v_2319040_25);
+Obj v_2319042_25 = PRIM_EQ(Nil, v_2319041_25);
+if (True == v_2319042_25) {
 R[1] = v_exp;
 R[2] = v_cont;
 saveCont(co, clofun67, 3, R);
@@ -5603,57 +5603,57 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317504_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317504_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317504_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317504_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317504_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318641_25= co->res;
-Obj v_2318640_25 = R[1];
-Obj v_2318642_25 = makeCons(co->gc, v_2318641_25, Nil);
-Obj v_2318643_25 = makeCons(co->gc, v_2318640_25, v_2318642_25);
-Obj v_2318644_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318643_25);
-coraReturn(co, v_2318644_25);
+Obj v_2319045_25= co->res;
+Obj v_2319044_25 = R[1];
+Obj v_2319046_25 = makeCons(co->gc, v_2319045_25, Nil);
+Obj v_2319047_25 = makeCons(co->gc, v_2319044_25, v_2319046_25);
+Obj v_2319048_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319047_25);
+coraReturn(co, v_2319048_25);
 return;
 }
 case 2:
 {
-Obj v_2318640_25= co->res;
+Obj v_2319044_25= co->res;
 Obj v_cont = R[1];
-R[1] = v_2318640_25;
+R[1] = v_2319044_25;
 saveCont(co, clofun67, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj v_2318639_25= co->res;
+Obj v_2319043_25= co->res;
 Obj v_exp = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 saveCont(co, clofun67, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318639_25, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319043_25, v_exp);
 return;
 }
 }
@@ -5663,12 +5663,12 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318617_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318617_25) {
-Obj v_2318618_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318618_25;
-Obj v_2318619_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318619_25;
+Obj v_2319021_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319021_25) {
+Obj v_2319022_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319022_25;
+Obj v_2319023_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319023_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun66, 1, R);
@@ -5682,12 +5682,12 @@ return;
 }
 case 1:
 {
-Obj v_2318620_25= co->res;
+Obj v_2319024_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318621_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319025_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318620_25, v_2318621_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319024_25, v_2319025_25);
 return;
 }
 }
@@ -5697,24 +5697,24 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317493_25 = R[1];
-Obj v_2317494_25 = R[2];
-Obj v_2317495_25 = R[3];
-Obj v_2318592_25 = PRIM_EQ(Nil, v_2317493_25);
-if (True == v_2318592_25) {
-R[1] = v_2317495_25;
+Obj v_2317897_25 = R[1];
+Obj v_2317898_25 = R[2];
+Obj v_2317899_25 = R[3];
+Obj v_2318996_25 = PRIM_EQ(Nil, v_2317897_25);
+if (True == v_2318996_25) {
+R[1] = v_2317899_25;
 saveCont(co, clofun65, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317494_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317898_25);
 return;
 } else {
-Obj v_2318610_25 = PRIM_ISCONS(v_2317493_25);
-if (True == v_2318610_25) {
-Obj v_2318611_25 = PRIM_CAR(v_2317493_25);
-Obj v_hd = v_2318611_25;
-Obj v_2318612_25 = PRIM_CDR(v_2317493_25);
-Obj v_tl = v_2318612_25;
+Obj v_2319014_25 = PRIM_ISCONS(v_2317897_25);
+if (True == v_2319014_25) {
+Obj v_2319015_25 = PRIM_CAR(v_2317897_25);
+Obj v_hd = v_2319015_25;
+Obj v_2319016_25 = PRIM_CDR(v_2317897_25);
+Obj v_tl = v_2319016_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun64, 1, 3, v_tl, v_2317494_25, v_2317495_25));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun64, 1, 3, v_tl, v_2317898_25, v_2317899_25));
 return;
 } else {
 co->ctx.sp = R;
@@ -5725,46 +5725,46 @@ return;
 }
 case 1:
 {
-Obj v_2318608_25= co->res;
-Obj v_2317649_25 = R[1];
-Obj v_2318609_25 = PRIM_EQ(v_2318608_25, getBinding(co, packageID, 91).name);
-if (True == v_2318609_25) {
+Obj v_2319012_25= co->res;
+Obj v_2318053_25 = R[1];
+Obj v_2319013_25 = PRIM_EQ(v_2319012_25, getBinding(co, packageID, 91).name);
+if (True == v_2319013_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317649_25, True);
+coraCall1(co, v_2318053_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317649_25, False);
+coraCall1(co, v_2318053_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318607_25= co->res;
+Obj v_2319011_25= co->res;
 Obj v_exp = R[1];
-Obj v_2317649_25 = R[2];
-if (True == v_2318607_25) {
-R[1] = v_2317649_25;
+Obj v_2318053_25 = R[2];
+if (True == v_2319011_25) {
+R[1] = v_2318053_25;
 saveCont(co, clofun65, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317649_25, False);
+coraCall1(co, v_2318053_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2318593_25= co->res;
-Obj v_2317495_25 = R[1];
-Obj v_exp = v_2318593_25;
-Obj v_2317649_25 = makeNative(co->gc, 2, clofun63, 1, 2, v_exp, v_2317495_25);
-Obj v_2318606_25 = PRIM_CAR(v_exp);
+Obj v_2318997_25= co->res;
+Obj v_2317899_25 = R[1];
+Obj v_exp = v_2318997_25;
+Obj v_2318053_25 = makeNative(co->gc, 2, clofun63, 1, 2, v_exp, v_2317899_25);
+Obj v_2319010_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2317649_25;
+R[2] = v_2318053_25;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2318606_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2319010_25);
 return;
 }
 }
@@ -5775,9 +5775,9 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v_2318613_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v_2319017_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2318613_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2319017_25, closureRef(R[0], 2));
 return;
 }
 }
@@ -5787,23 +5787,23 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317650_25 = R[1];
-if (True == v_2317650_25) {
+Obj v_2318054_25 = R[1];
+if (True == v_2318054_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2318594_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
-if (True == v_2318594_25) {
-Obj v_2318595_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2318596_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318595_25);
-coraReturn(co, v_2318596_25);
+Obj v_2318998_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
+if (True == v_2318998_25) {
+Obj v_2318999_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2319000_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318999_25);
+coraReturn(co, v_2319000_25);
 return;
 } else {
-Obj v_2318597_25 = primGenSym(co);
-Obj v_val = v_2318597_25;
-Obj v_2318598_25 = makeCons(co->gc, v_val, Nil);
-R[1] = v_2318598_25;
+Obj v_2319001_25 = primGenSym(co);
+Obj v_val = v_2319001_25;
+Obj v_2319002_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2319002_25;
 saveCont(co, clofun63, 1, R);
 coraCall1(co, closureRef(R[0], 1), v_val);
 return;
@@ -5812,15 +5812,15 @@ return;
 }
 case 1:
 {
-Obj v_2318599_25= co->res;
-Obj v_2318598_25 = R[1];
-Obj v_2318600_25 = makeCons(co->gc, v_2318599_25, Nil);
-Obj v_2318601_25 = makeCons(co->gc, v_2318598_25, v_2318600_25);
-Obj v_2318602_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318601_25);
-Obj v_2318603_25 = makeCons(co->gc, v_2318602_25, Nil);
-Obj v_2318604_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318603_25);
-Obj v_2318605_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318604_25);
-coraReturn(co, v_2318605_25);
+Obj v_2319003_25= co->res;
+Obj v_2319002_25 = R[1];
+Obj v_2319004_25 = makeCons(co->gc, v_2319003_25, Nil);
+Obj v_2319005_25 = makeCons(co->gc, v_2319002_25, v_2319004_25);
+Obj v_2319006_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2319005_25);
+Obj v_2319007_25 = makeCons(co->gc, v_2319006_25, Nil);
+Obj v_2319008_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319007_25);
+Obj v_2319009_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319008_25);
+coraReturn(co, v_2319009_25);
 return;
 }
 }
@@ -5830,32 +5830,32 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317484_25 = R[1];
-Obj v_2317485_25 = R[2];
-Obj v_2317638_25 = makeNative(co->gc, 2, clofun61, 1, 2, v_2317484_25, v_2317485_25);
-Obj v_2318589_25 = primIsSymbol(v_2317484_25);
-if (True == v_2318589_25) {
+Obj v_2317888_25 = R[1];
+Obj v_2317889_25 = R[2];
+Obj v_2318042_25 = makeNative(co->gc, 2, clofun61, 1, 2, v_2317888_25, v_2317889_25);
+Obj v_2318993_25 = primIsSymbol(v_2317888_25);
+if (True == v_2318993_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317638_25, True);
+coraCall1(co, v_2318042_25, True);
 return;
 } else {
-R[1] = v_2317638_25;
+R[1] = v_2318042_25;
 saveCont(co, clofun62, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317484_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317888_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318590_25= co->res;
-Obj v_2317638_25 = R[1];
-if (True == v_2318590_25) {
+Obj v_2318994_25= co->res;
+Obj v_2318042_25 = R[1];
+if (True == v_2318994_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317638_25, True);
+coraCall1(co, v_2318042_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317638_25, False);
+coraCall1(co, v_2318042_25, False);
 return;
 }
 }
@@ -5866,8 +5866,8 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317639_25 = R[1];
-if (True == v_2317639_25) {
+Obj v_2318043_25 = R[1];
+if (True == v_2318043_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5879,78 +5879,78 @@ return;
 }
 case 1:
 {
-Obj v_2318455_25= co->res;
-if (True == v_2318455_25) {
+Obj v_2318859_25= co->res;
+if (True == v_2318859_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v_2317488_25 = makeNative(co->gc, 1, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318557_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318557_25) {
-Obj v_2318558_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318559_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318558_25);
-if (True == v_2318559_25) {
-Obj v_2318560_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318561_25 = PRIM_ISCONS(v_2318560_25);
-if (True == v_2318561_25) {
-Obj v_2318562_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318563_25 = PRIM_CAR(v_2318562_25);
-Obj v_a = v_2318563_25;
-Obj v_2318564_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318565_25 = PRIM_CDR(v_2318564_25);
-Obj v_2318566_25 = PRIM_ISCONS(v_2318565_25);
-if (True == v_2318566_25) {
-Obj v_2318567_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318568_25 = PRIM_CDR(v_2318567_25);
-Obj v_2318569_25 = PRIM_CAR(v_2318568_25);
-Obj v_b = v_2318569_25;
-Obj v_2318570_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318571_25 = PRIM_CDR(v_2318570_25);
-Obj v_2318572_25 = PRIM_CDR(v_2318571_25);
-Obj v_2318573_25 = PRIM_ISCONS(v_2318572_25);
-if (True == v_2318573_25) {
-Obj v_2318574_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318575_25 = PRIM_CDR(v_2318574_25);
-Obj v_2318576_25 = PRIM_CDR(v_2318575_25);
-Obj v_2318577_25 = PRIM_CAR(v_2318576_25);
-Obj v_c = v_2318577_25;
-Obj v_2318578_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318579_25 = PRIM_CDR(v_2318578_25);
-Obj v_2318580_25 = PRIM_CDR(v_2318579_25);
-Obj v_2318581_25 = PRIM_CDR(v_2318580_25);
-Obj v_2318582_25 = PRIM_EQ(Nil, v_2318581_25);
-if (True == v_2318582_25) {
+Obj v_2317892_25 = makeNative(co->gc, 1, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318961_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318961_25) {
+Obj v_2318962_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318963_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318962_25);
+if (True == v_2318963_25) {
+Obj v_2318964_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318965_25 = PRIM_ISCONS(v_2318964_25);
+if (True == v_2318965_25) {
+Obj v_2318966_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318967_25 = PRIM_CAR(v_2318966_25);
+Obj v_a = v_2318967_25;
+Obj v_2318968_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318969_25 = PRIM_CDR(v_2318968_25);
+Obj v_2318970_25 = PRIM_ISCONS(v_2318969_25);
+if (True == v_2318970_25) {
+Obj v_2318971_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318972_25 = PRIM_CDR(v_2318971_25);
+Obj v_2318973_25 = PRIM_CAR(v_2318972_25);
+Obj v_b = v_2318973_25;
+Obj v_2318974_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318975_25 = PRIM_CDR(v_2318974_25);
+Obj v_2318976_25 = PRIM_CDR(v_2318975_25);
+Obj v_2318977_25 = PRIM_ISCONS(v_2318976_25);
+if (True == v_2318977_25) {
+Obj v_2318978_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318979_25 = PRIM_CDR(v_2318978_25);
+Obj v_2318980_25 = PRIM_CDR(v_2318979_25);
+Obj v_2318981_25 = PRIM_CAR(v_2318980_25);
+Obj v_c = v_2318981_25;
+Obj v_2318982_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318983_25 = PRIM_CDR(v_2318982_25);
+Obj v_2318984_25 = PRIM_CDR(v_2318983_25);
+Obj v_2318985_25 = PRIM_CDR(v_2318984_25);
+Obj v_2318986_25 = PRIM_EQ(Nil, v_2318985_25);
+if (True == v_2318986_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 3, clofun60, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317488_25);
+coraCall0(co, v_2317892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317488_25);
+coraCall0(co, v_2317892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317488_25);
+coraCall0(co, v_2317892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317488_25);
+coraCall0(co, v_2317892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317488_25);
+coraCall0(co, v_2317892_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317488_25);
+coraCall0(co, v_2317892_25);
 return;
 }
 }
@@ -5970,21 +5970,21 @@ return;
 }
 case 1:
 {
-Obj v_2318584_25= co->res;
-Obj v_2318583_25 = R[1];
+Obj v_2318988_25= co->res;
+Obj v_2318987_25 = R[1];
 Obj v_ra = R[2];
-Obj v_2318585_25 = makeCons(co->gc, v_2318584_25, Nil);
-Obj v_2318586_25 = makeCons(co->gc, v_2318583_25, v_2318585_25);
-Obj v_2318587_25 = makeCons(co->gc, v_ra, v_2318586_25);
-Obj v_2318588_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318587_25);
-coraReturn(co, v_2318588_25);
+Obj v_2318989_25 = makeCons(co->gc, v_2318988_25, Nil);
+Obj v_2318990_25 = makeCons(co->gc, v_2318987_25, v_2318989_25);
+Obj v_2318991_25 = makeCons(co->gc, v_ra, v_2318990_25);
+Obj v_2318992_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318991_25);
+coraReturn(co, v_2318992_25);
 return;
 }
 case 2:
 {
-Obj v_2318583_25= co->res;
+Obj v_2318987_25= co->res;
 Obj v_ra = R[1];
-R[1] = v_2318583_25;
+R[1] = v_2318987_25;
 R[2] = v_ra;
 saveCont(co, clofun60, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -5997,57 +5997,57 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317489_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318535_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318535_25) {
-Obj v_2318536_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318537_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318536_25);
-if (True == v_2318537_25) {
-Obj v_2318538_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318539_25 = PRIM_ISCONS(v_2318538_25);
-if (True == v_2318539_25) {
-Obj v_2318540_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318541_25 = PRIM_CAR(v_2318540_25);
-Obj v_a = v_2318541_25;
-Obj v_2318542_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318543_25 = PRIM_CDR(v_2318542_25);
-Obj v_2318544_25 = PRIM_ISCONS(v_2318543_25);
-if (True == v_2318544_25) {
-Obj v_2318545_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318546_25 = PRIM_CDR(v_2318545_25);
-Obj v_2318547_25 = PRIM_CAR(v_2318546_25);
-Obj v_b = v_2318547_25;
-Obj v_2318548_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318549_25 = PRIM_CDR(v_2318548_25);
-Obj v_2318550_25 = PRIM_CDR(v_2318549_25);
-Obj v_2318551_25 = PRIM_EQ(Nil, v_2318550_25);
-if (True == v_2318551_25) {
+Obj v_2317893_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318939_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318939_25) {
+Obj v_2318940_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318941_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318940_25);
+if (True == v_2318941_25) {
+Obj v_2318942_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318943_25 = PRIM_ISCONS(v_2318942_25);
+if (True == v_2318943_25) {
+Obj v_2318944_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318945_25 = PRIM_CAR(v_2318944_25);
+Obj v_a = v_2318945_25;
+Obj v_2318946_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318947_25 = PRIM_CDR(v_2318946_25);
+Obj v_2318948_25 = PRIM_ISCONS(v_2318947_25);
+if (True == v_2318948_25) {
+Obj v_2318949_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318950_25 = PRIM_CDR(v_2318949_25);
+Obj v_2318951_25 = PRIM_CAR(v_2318950_25);
+Obj v_b = v_2318951_25;
+Obj v_2318952_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318953_25 = PRIM_CDR(v_2318952_25);
+Obj v_2318954_25 = PRIM_CDR(v_2318953_25);
+Obj v_2318955_25 = PRIM_EQ(Nil, v_2318954_25);
+if (True == v_2318955_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 2, clofun58, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317489_25);
+coraCall0(co, v_2317893_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317489_25);
+coraCall0(co, v_2317893_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317489_25);
+coraCall0(co, v_2317893_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317489_25);
+coraCall0(co, v_2317893_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317489_25);
+coraCall0(co, v_2317893_25);
 return;
 }
 }
@@ -6059,8 +6059,8 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v_2318552_25 = primIsSymbol(v_ra);
-if (True == v_2318552_25) {
+Obj v_2318956_25 = primIsSymbol(v_ra);
+if (True == v_2318956_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6073,12 +6073,12 @@ return;
 }
 case 1:
 {
-Obj v_2318553_25= co->res;
+Obj v_2318957_25= co->res;
 Obj v_ra = R[1];
-Obj v_2318554_25 = makeCons(co->gc, v_2318553_25, Nil);
-Obj v_2318555_25 = makeCons(co->gc, v_ra, v_2318554_25);
-Obj v_2318556_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318555_25);
-coraReturn(co, v_2318556_25);
+Obj v_2318958_25 = makeCons(co->gc, v_2318957_25, Nil);
+Obj v_2318959_25 = makeCons(co->gc, v_ra, v_2318958_25);
+Obj v_2318960_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318959_25);
+coraReturn(co, v_2318960_25);
 return;
 }
 }
@@ -6088,73 +6088,73 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317490_25 = makeNative(co->gc, 3, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318504_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318504_25) {
-Obj v_2318505_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318506_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318505_25);
-if (True == v_2318506_25) {
-Obj v_2318507_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318508_25 = PRIM_ISCONS(v_2318507_25);
-if (True == v_2318508_25) {
-Obj v_2318509_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318510_25 = PRIM_CAR(v_2318509_25);
-Obj v_a = v_2318510_25;
-Obj v_2318511_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318512_25 = PRIM_CDR(v_2318511_25);
-Obj v_2318513_25 = PRIM_ISCONS(v_2318512_25);
-if (True == v_2318513_25) {
-Obj v_2318514_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318515_25 = PRIM_CDR(v_2318514_25);
-Obj v_2318516_25 = PRIM_CAR(v_2318515_25);
-Obj v_b = v_2318516_25;
-Obj v_2318517_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318518_25 = PRIM_CDR(v_2318517_25);
-Obj v_2318519_25 = PRIM_CDR(v_2318518_25);
-Obj v_2318520_25 = PRIM_ISCONS(v_2318519_25);
-if (True == v_2318520_25) {
-Obj v_2318521_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318522_25 = PRIM_CDR(v_2318521_25);
-Obj v_2318523_25 = PRIM_CDR(v_2318522_25);
-Obj v_2318524_25 = PRIM_CAR(v_2318523_25);
-Obj v_c = v_2318524_25;
-Obj v_2318525_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318526_25 = PRIM_CDR(v_2318525_25);
-Obj v_2318527_25 = PRIM_CDR(v_2318526_25);
-Obj v_2318528_25 = PRIM_CDR(v_2318527_25);
-Obj v_2318529_25 = PRIM_EQ(Nil, v_2318528_25);
-if (True == v_2318529_25) {
+Obj v_2317894_25 = makeNative(co->gc, 3, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318908_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318908_25) {
+Obj v_2318909_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318910_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318909_25);
+if (True == v_2318910_25) {
+Obj v_2318911_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318912_25 = PRIM_ISCONS(v_2318911_25);
+if (True == v_2318912_25) {
+Obj v_2318913_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318914_25 = PRIM_CAR(v_2318913_25);
+Obj v_a = v_2318914_25;
+Obj v_2318915_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318916_25 = PRIM_CDR(v_2318915_25);
+Obj v_2318917_25 = PRIM_ISCONS(v_2318916_25);
+if (True == v_2318917_25) {
+Obj v_2318918_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318919_25 = PRIM_CDR(v_2318918_25);
+Obj v_2318920_25 = PRIM_CAR(v_2318919_25);
+Obj v_b = v_2318920_25;
+Obj v_2318921_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318922_25 = PRIM_CDR(v_2318921_25);
+Obj v_2318923_25 = PRIM_CDR(v_2318922_25);
+Obj v_2318924_25 = PRIM_ISCONS(v_2318923_25);
+if (True == v_2318924_25) {
+Obj v_2318925_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318926_25 = PRIM_CDR(v_2318925_25);
+Obj v_2318927_25 = PRIM_CDR(v_2318926_25);
+Obj v_2318928_25 = PRIM_CAR(v_2318927_25);
+Obj v_c = v_2318928_25;
+Obj v_2318929_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318930_25 = PRIM_CDR(v_2318929_25);
+Obj v_2318931_25 = PRIM_CDR(v_2318930_25);
+Obj v_2318932_25 = PRIM_CDR(v_2318931_25);
+Obj v_2318933_25 = PRIM_EQ(Nil, v_2318932_25);
+if (True == v_2318933_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_b, makeNative(co->gc, 2, clofun56, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317490_25);
+coraCall0(co, v_2317894_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317490_25);
+coraCall0(co, v_2317894_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317490_25);
+coraCall0(co, v_2317894_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317490_25);
+coraCall0(co, v_2317894_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317490_25);
+coraCall0(co, v_2317894_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317490_25);
+coraCall0(co, v_2317894_25);
 return;
 }
 }
@@ -6173,13 +6173,13 @@ return;
 }
 case 1:
 {
-Obj v_2318530_25= co->res;
+Obj v_2318934_25= co->res;
 Obj v_rb = R[1];
-Obj v_2318531_25 = makeCons(co->gc, v_2318530_25, Nil);
-Obj v_2318532_25 = makeCons(co->gc, v_rb, v_2318531_25);
-Obj v_2318533_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318532_25);
-Obj v_2318534_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318533_25);
-coraReturn(co, v_2318534_25);
+Obj v_2318935_25 = makeCons(co->gc, v_2318934_25, Nil);
+Obj v_2318936_25 = makeCons(co->gc, v_rb, v_2318935_25);
+Obj v_2318937_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318936_25);
+Obj v_2318938_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318937_25);
+coraReturn(co, v_2318938_25);
 return;
 }
 }
@@ -6189,56 +6189,56 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317491_25 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318460_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318460_25) {
-Obj v_2318461_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318462_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318461_25);
-if (True == v_2318462_25) {
-Obj v_2318463_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318464_25 = PRIM_ISCONS(v_2318463_25);
-if (True == v_2318464_25) {
-Obj v_2318465_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318466_25 = PRIM_CAR(v_2318465_25);
-Obj v_2318467_25 = PRIM_ISCONS(v_2318466_25);
-if (True == v_2318467_25) {
-Obj v_2318468_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318469_25 = PRIM_CAR(v_2318468_25);
-Obj v_2318470_25 = PRIM_CAR(v_2318469_25);
-Obj v_2318471_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318470_25);
-if (True == v_2318471_25) {
-Obj v_2318472_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318473_25 = PRIM_CAR(v_2318472_25);
-Obj v_2318474_25 = PRIM_CDR(v_2318473_25);
-Obj v_2318475_25 = PRIM_ISCONS(v_2318474_25);
-if (True == v_2318475_25) {
-Obj v_2318476_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318477_25 = PRIM_CAR(v_2318476_25);
-Obj v_2318478_25 = PRIM_CDR(v_2318477_25);
-Obj v_2318479_25 = PRIM_CAR(v_2318478_25);
-Obj v_args = v_2318479_25;
-Obj v_2318480_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318481_25 = PRIM_CAR(v_2318480_25);
-Obj v_2318482_25 = PRIM_CDR(v_2318481_25);
-Obj v_2318483_25 = PRIM_CDR(v_2318482_25);
-Obj v_2318484_25 = PRIM_ISCONS(v_2318483_25);
-if (True == v_2318484_25) {
-Obj v_2318485_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318486_25 = PRIM_CAR(v_2318485_25);
-Obj v_2318487_25 = PRIM_CDR(v_2318486_25);
-Obj v_2318488_25 = PRIM_CDR(v_2318487_25);
-Obj v_2318489_25 = PRIM_CAR(v_2318488_25);
-Obj v_body = v_2318489_25;
-Obj v_2318490_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318491_25 = PRIM_CAR(v_2318490_25);
-Obj v_2318492_25 = PRIM_CDR(v_2318491_25);
-Obj v_2318493_25 = PRIM_CDR(v_2318492_25);
-Obj v_2318494_25 = PRIM_CDR(v_2318493_25);
-Obj v_2318495_25 = PRIM_EQ(Nil, v_2318494_25);
-if (True == v_2318495_25) {
-Obj v_2318496_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318497_25 = PRIM_CDR(v_2318496_25);
-Obj v_frees = v_2318497_25;
+Obj v_2317895_25 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318864_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318864_25) {
+Obj v_2318865_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318866_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318865_25);
+if (True == v_2318866_25) {
+Obj v_2318867_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318868_25 = PRIM_ISCONS(v_2318867_25);
+if (True == v_2318868_25) {
+Obj v_2318869_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318870_25 = PRIM_CAR(v_2318869_25);
+Obj v_2318871_25 = PRIM_ISCONS(v_2318870_25);
+if (True == v_2318871_25) {
+Obj v_2318872_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318873_25 = PRIM_CAR(v_2318872_25);
+Obj v_2318874_25 = PRIM_CAR(v_2318873_25);
+Obj v_2318875_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318874_25);
+if (True == v_2318875_25) {
+Obj v_2318876_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318877_25 = PRIM_CAR(v_2318876_25);
+Obj v_2318878_25 = PRIM_CDR(v_2318877_25);
+Obj v_2318879_25 = PRIM_ISCONS(v_2318878_25);
+if (True == v_2318879_25) {
+Obj v_2318880_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318881_25 = PRIM_CAR(v_2318880_25);
+Obj v_2318882_25 = PRIM_CDR(v_2318881_25);
+Obj v_2318883_25 = PRIM_CAR(v_2318882_25);
+Obj v_args = v_2318883_25;
+Obj v_2318884_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318885_25 = PRIM_CAR(v_2318884_25);
+Obj v_2318886_25 = PRIM_CDR(v_2318885_25);
+Obj v_2318887_25 = PRIM_CDR(v_2318886_25);
+Obj v_2318888_25 = PRIM_ISCONS(v_2318887_25);
+if (True == v_2318888_25) {
+Obj v_2318889_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318890_25 = PRIM_CAR(v_2318889_25);
+Obj v_2318891_25 = PRIM_CDR(v_2318890_25);
+Obj v_2318892_25 = PRIM_CDR(v_2318891_25);
+Obj v_2318893_25 = PRIM_CAR(v_2318892_25);
+Obj v_body = v_2318893_25;
+Obj v_2318894_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318895_25 = PRIM_CAR(v_2318894_25);
+Obj v_2318896_25 = PRIM_CDR(v_2318895_25);
+Obj v_2318897_25 = PRIM_CDR(v_2318896_25);
+Obj v_2318898_25 = PRIM_CDR(v_2318897_25);
+Obj v_2318899_25 = PRIM_EQ(Nil, v_2318898_25);
+if (True == v_2318899_25) {
+Obj v_2318900_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318901_25 = PRIM_CDR(v_2318900_25);
+Obj v_frees = v_2318901_25;
 R[1] = v_args;
 R[2] = v_frees;
 saveCont(co, clofun55, 1, R);
@@ -6246,57 +6246,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_body, globalRef(co
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317491_25);
+coraCall0(co, v_2317895_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318498_25= co->res;
+Obj v_2318902_25= co->res;
 Obj v_args = R[1];
 Obj v_frees = R[2];
-Obj v_2318499_25 = makeCons(co->gc, v_2318498_25, Nil);
-Obj v_2318500_25 = makeCons(co->gc, v_args, v_2318499_25);
-Obj v_2318501_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318500_25);
-Obj v_2318502_25 = makeCons(co->gc, v_2318501_25, v_frees);
-Obj v_2318503_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318502_25);
+Obj v_2318903_25 = makeCons(co->gc, v_2318902_25, Nil);
+Obj v_2318904_25 = makeCons(co->gc, v_args, v_2318903_25);
+Obj v_2318905_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318904_25);
+Obj v_2318906_25 = makeCons(co->gc, v_2318905_25, v_frees);
+Obj v_2318907_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318906_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v_2318503_25);
+coraCall1(co, closureRef(R[0], 1), v_2318907_25);
 return;
 }
 }
@@ -6306,15 +6306,15 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318456_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318456_25) {
-Obj v_2318457_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318457_25;
-Obj v_2318458_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318458_25;
-Obj v_2318459_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318860_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318860_25) {
+Obj v_2318861_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318861_25;
+Obj v_2318862_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318862_25;
+Obj v_2318863_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2318459_25, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2318863_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6330,9 +6330,9 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318452_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2318453_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2318452_25);
-coraReturn(co, v_2318453_25);
+Obj v_2318856_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2318857_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2318856_25);
+coraReturn(co, v_2318857_25);
 return;
 }
 }
@@ -6342,73 +6342,73 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317477_25 = R[1];
-Obj v_2317478_25 = R[2];
-R[1] = v_2317478_25;
-R[2] = v_2317477_25;
+Obj v_2317881_25 = R[1];
+Obj v_2317882_25 = R[2];
+R[1] = v_2317882_25;
+R[2] = v_2317881_25;
 saveCont(co, clofun52, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317478_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317882_25);
 return;
 }
 case 1:
 {
-Obj v_2318381_25= co->res;
-Obj v_2317478_25 = R[1];
-Obj v_pos = v_2318381_25;
-Obj v_2318382_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
-if (True == v_2318382_25) {
-coraReturn(co, v_2317478_25);
+Obj v_2318785_25= co->res;
+Obj v_2317882_25 = R[1];
+Obj v_pos = v_2318785_25;
+Obj v_2318786_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2318786_25) {
+coraReturn(co, v_2317882_25);
 return;
 } else {
-Obj v_2318383_25 = makeCons(co->gc, v_pos, Nil);
-Obj v_2318384_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318383_25);
-coraReturn(co, v_2318384_25);
+Obj v_2318787_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2318788_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318787_25);
+coraReturn(co, v_2318788_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2318448_25= co->res;
-Obj v_2318446_25 = R[1];
-Obj v_2318449_25 = makeCons(co->gc, v_2318446_25, v_2318448_25);
-Obj v_2318450_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318449_25);
-coraReturn(co, v_2318450_25);
+Obj v_2318852_25= co->res;
+Obj v_2318850_25 = R[1];
+Obj v_2318853_25 = makeCons(co->gc, v_2318850_25, v_2318852_25);
+Obj v_2318854_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318853_25);
+coraReturn(co, v_2318854_25);
 return;
 }
 case 3:
 {
-Obj v_2318447_25= co->res;
+Obj v_2318851_25= co->res;
 Obj v_fvs1 = R[1];
-Obj v_2318446_25 = R[2];
-R[1] = v_2318446_25;
+Obj v_2318850_25 = R[2];
+R[1] = v_2318850_25;
 saveCont(co, clofun52, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318447_25, v_fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318851_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2318443_25= co->res;
+Obj v_2318847_25= co->res;
 Obj v_args = R[1];
-Obj v_2317477_25 = R[2];
+Obj v_2317881_25 = R[2];
 Obj v_fvs1 = R[3];
-Obj v_2318444_25 = makeCons(co->gc, v_2318443_25, Nil);
-Obj v_2318445_25 = makeCons(co->gc, v_args, v_2318444_25);
-Obj v_2318446_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318445_25);
+Obj v_2318848_25 = makeCons(co->gc, v_2318847_25, Nil);
+Obj v_2318849_25 = makeCons(co->gc, v_args, v_2318848_25);
+Obj v_2318850_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318849_25);
 R[1] = v_fvs1;
-R[2] = v_2318446_25;
+R[2] = v_2318850_25;
 saveCont(co, clofun52, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2317477_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2317881_25);
 return;
 }
 case 5:
 {
-Obj v_2318442_25= co->res;
+Obj v_2318846_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2317477_25 = R[3];
-Obj v_fvs1 = v_2318442_25;
+Obj v_2317881_25 = R[3];
+Obj v_fvs1 = v_2318846_25;
 R[1] = v_args;
-R[2] = v_2317477_25;
+R[2] = v_2317881_25;
 R[3] = v_fvs1;
 saveCont(co, clofun52, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_fvs1, v_body);
@@ -6416,77 +6416,77 @@ return;
 }
 case 6:
 {
-Obj v_2318379_25= co->res;
-Obj v_2317478_25 = R[1];
-Obj v_2317477_25 = R[2];
-if (True == v_2318379_25) {
-coraReturn(co, v_2317478_25);
+Obj v_2318783_25= co->res;
+Obj v_2317882_25 = R[1];
+Obj v_2317881_25 = R[2];
+if (True == v_2318783_25) {
+coraReturn(co, v_2317882_25);
 return;
 } else {
-Obj v_2318380_25 = primIsSymbol(v_2317478_25);
-if (True == v_2318380_25) {
-R[1] = v_2317478_25;
+Obj v_2318784_25 = primIsSymbol(v_2317882_25);
+if (True == v_2318784_25) {
+R[1] = v_2317882_25;
 saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317478_25, v_2317477_25);
-return;
-} else {
-Obj v_2317481_25 = makeNative(co->gc, 3, clofun51, 0, 2, v_2317478_25, v_2317477_25);
-Obj v_2318422_25 = PRIM_ISCONS(v_2317478_25);
-if (True == v_2318422_25) {
-Obj v_2318423_25 = PRIM_CAR(v_2317478_25);
-Obj v_2318424_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318423_25);
-if (True == v_2318424_25) {
-Obj v_2318425_25 = PRIM_CDR(v_2317478_25);
-Obj v_2318426_25 = PRIM_ISCONS(v_2318425_25);
-if (True == v_2318426_25) {
-Obj v_2318427_25 = PRIM_CDR(v_2317478_25);
-Obj v_2318428_25 = PRIM_CAR(v_2318427_25);
-Obj v_args = v_2318428_25;
-Obj v_2318429_25 = PRIM_CDR(v_2317478_25);
-Obj v_2318430_25 = PRIM_CDR(v_2318429_25);
-Obj v_2318431_25 = PRIM_ISCONS(v_2318430_25);
-if (True == v_2318431_25) {
-Obj v_2318432_25 = PRIM_CDR(v_2317478_25);
-Obj v_2318433_25 = PRIM_CDR(v_2318432_25);
-Obj v_2318434_25 = PRIM_CAR(v_2318433_25);
-Obj v_body = v_2318434_25;
-Obj v_2318435_25 = PRIM_CDR(v_2317478_25);
-Obj v_2318436_25 = PRIM_CDR(v_2318435_25);
-Obj v_2318437_25 = PRIM_CDR(v_2318436_25);
-Obj v_2318438_25 = PRIM_EQ(Nil, v_2318437_25);
-if (True == v_2318438_25) {
-Obj v_2318439_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2318440_25 = makeCons(co->gc, v_args, v_2318439_25);
-Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318440_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317882_25, v_2317881_25);
+return;
+} else {
+Obj v_2317885_25 = makeNative(co->gc, 3, clofun51, 0, 2, v_2317882_25, v_2317881_25);
+Obj v_2318826_25 = PRIM_ISCONS(v_2317882_25);
+if (True == v_2318826_25) {
+Obj v_2318827_25 = PRIM_CAR(v_2317882_25);
+Obj v_2318828_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318827_25);
+if (True == v_2318828_25) {
+Obj v_2318829_25 = PRIM_CDR(v_2317882_25);
+Obj v_2318830_25 = PRIM_ISCONS(v_2318829_25);
+if (True == v_2318830_25) {
+Obj v_2318831_25 = PRIM_CDR(v_2317882_25);
+Obj v_2318832_25 = PRIM_CAR(v_2318831_25);
+Obj v_args = v_2318832_25;
+Obj v_2318833_25 = PRIM_CDR(v_2317882_25);
+Obj v_2318834_25 = PRIM_CDR(v_2318833_25);
+Obj v_2318835_25 = PRIM_ISCONS(v_2318834_25);
+if (True == v_2318835_25) {
+Obj v_2318836_25 = PRIM_CDR(v_2317882_25);
+Obj v_2318837_25 = PRIM_CDR(v_2318836_25);
+Obj v_2318838_25 = PRIM_CAR(v_2318837_25);
+Obj v_body = v_2318838_25;
+Obj v_2318839_25 = PRIM_CDR(v_2317882_25);
+Obj v_2318840_25 = PRIM_CDR(v_2318839_25);
+Obj v_2318841_25 = PRIM_CDR(v_2318840_25);
+Obj v_2318842_25 = PRIM_EQ(Nil, v_2318841_25);
+if (True == v_2318842_25) {
+Obj v_2318843_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2318844_25 = makeCons(co->gc, v_args, v_2318843_25);
+Obj v_2318845_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318844_25);
 R[1] = v_body;
 R[2] = v_args;
-R[3] = v_2317477_25;
+R[3] = v_2317881_25;
 saveCont(co, clofun52, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318441_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318845_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317481_25);
+coraCall0(co, v_2317885_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317481_25);
+coraCall0(co, v_2317885_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317481_25);
+coraCall0(co, v_2317885_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317481_25);
+coraCall0(co, v_2317885_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317481_25);
+coraCall0(co, v_2317885_25);
 return;
 }
 }
@@ -6499,42 +6499,42 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317482_25 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318390_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318390_25) {
-Obj v_2318391_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318392_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318391_25);
-if (True == v_2318392_25) {
-Obj v_2318393_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318394_25 = PRIM_ISCONS(v_2318393_25);
-if (True == v_2318394_25) {
-Obj v_2318395_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318396_25 = PRIM_CAR(v_2318395_25);
-Obj v_a = v_2318396_25;
-Obj v_2318397_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318398_25 = PRIM_CDR(v_2318397_25);
-Obj v_2318399_25 = PRIM_ISCONS(v_2318398_25);
-if (True == v_2318399_25) {
-Obj v_2318400_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318401_25 = PRIM_CDR(v_2318400_25);
-Obj v_2318402_25 = PRIM_CAR(v_2318401_25);
-Obj v_b = v_2318402_25;
-Obj v_2318403_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318404_25 = PRIM_CDR(v_2318403_25);
-Obj v_2318405_25 = PRIM_CDR(v_2318404_25);
-Obj v_2318406_25 = PRIM_ISCONS(v_2318405_25);
-if (True == v_2318406_25) {
-Obj v_2318407_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318408_25 = PRIM_CDR(v_2318407_25);
-Obj v_2318409_25 = PRIM_CDR(v_2318408_25);
-Obj v_2318410_25 = PRIM_CAR(v_2318409_25);
-Obj v_c = v_2318410_25;
-Obj v_2318411_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318412_25 = PRIM_CDR(v_2318411_25);
-Obj v_2318413_25 = PRIM_CDR(v_2318412_25);
-Obj v_2318414_25 = PRIM_CDR(v_2318413_25);
-Obj v_2318415_25 = PRIM_EQ(Nil, v_2318414_25);
-if (True == v_2318415_25) {
+Obj v_2317886_25 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318794_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318794_25) {
+Obj v_2318795_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318796_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318795_25);
+if (True == v_2318796_25) {
+Obj v_2318797_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318798_25 = PRIM_ISCONS(v_2318797_25);
+if (True == v_2318798_25) {
+Obj v_2318799_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318800_25 = PRIM_CAR(v_2318799_25);
+Obj v_a = v_2318800_25;
+Obj v_2318801_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318802_25 = PRIM_CDR(v_2318801_25);
+Obj v_2318803_25 = PRIM_ISCONS(v_2318802_25);
+if (True == v_2318803_25) {
+Obj v_2318804_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318805_25 = PRIM_CDR(v_2318804_25);
+Obj v_2318806_25 = PRIM_CAR(v_2318805_25);
+Obj v_b = v_2318806_25;
+Obj v_2318807_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318808_25 = PRIM_CDR(v_2318807_25);
+Obj v_2318809_25 = PRIM_CDR(v_2318808_25);
+Obj v_2318810_25 = PRIM_ISCONS(v_2318809_25);
+if (True == v_2318810_25) {
+Obj v_2318811_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318812_25 = PRIM_CDR(v_2318811_25);
+Obj v_2318813_25 = PRIM_CDR(v_2318812_25);
+Obj v_2318814_25 = PRIM_CAR(v_2318813_25);
+Obj v_c = v_2318814_25;
+Obj v_2318815_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318816_25 = PRIM_CDR(v_2318815_25);
+Obj v_2318817_25 = PRIM_CDR(v_2318816_25);
+Obj v_2318818_25 = PRIM_CDR(v_2318817_25);
+Obj v_2318819_25 = PRIM_EQ(Nil, v_2318818_25);
+if (True == v_2318819_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun51, 2, R);
@@ -6542,53 +6542,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317482_25);
+coraCall0(co, v_2317886_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317482_25);
+coraCall0(co, v_2317886_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317482_25);
+coraCall0(co, v_2317886_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317482_25);
+coraCall0(co, v_2317886_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317482_25);
+coraCall0(co, v_2317886_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317482_25);
+coraCall0(co, v_2317886_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318417_25= co->res;
-Obj v_2318416_25 = R[1];
+Obj v_2318821_25= co->res;
+Obj v_2318820_25 = R[1];
 Obj v_a = R[2];
-Obj v_2318418_25 = makeCons(co->gc, v_2318417_25, Nil);
-Obj v_2318419_25 = makeCons(co->gc, v_2318416_25, v_2318418_25);
-Obj v_2318420_25 = makeCons(co->gc, v_a, v_2318419_25);
-Obj v_2318421_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318420_25);
-coraReturn(co, v_2318421_25);
+Obj v_2318822_25 = makeCons(co->gc, v_2318821_25, Nil);
+Obj v_2318823_25 = makeCons(co->gc, v_2318820_25, v_2318822_25);
+Obj v_2318824_25 = makeCons(co->gc, v_a, v_2318823_25);
+Obj v_2318825_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318824_25);
+coraReturn(co, v_2318825_25);
 return;
 }
 case 2:
 {
-Obj v_2318416_25= co->res;
+Obj v_2318820_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-R[1] = v_2318416_25;
+R[1] = v_2318820_25;
 R[2] = v_a;
 saveCont(co, clofun51, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v_c);
@@ -6601,12 +6601,12 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318385_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318385_25) {
-Obj v_2318386_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318386_25;
-Obj v_2318387_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318387_25;
+Obj v_2318789_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318789_25) {
+Obj v_2318790_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318790_25;
+Obj v_2318791_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318791_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun50, 1, R);
@@ -6620,12 +6620,12 @@ return;
 }
 case 1:
 {
-Obj v_2318388_25= co->res;
+Obj v_2318792_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318389_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318793_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318388_25, v_2318389_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318792_25, v_2318793_25);
 return;
 }
 }
@@ -6635,86 +6635,86 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317464_25 = R[1];
-R[1] = v_2317464_25;
+Obj v_2317868_25 = R[1];
+R[1] = v_2317868_25;
 saveCont(co, clofun49, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317464_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317868_25);
 return;
 }
 case 1:
 {
-Obj v_2318377_25= co->res;
+Obj v_2318781_25= co->res;
 Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318377_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318781_25, v_args);
 return;
 }
 case 2:
 {
-Obj v_2318204_25= co->res;
-Obj v_2317464_25 = R[1];
-if (True == v_2318204_25) {
+Obj v_2318608_25= co->res;
+Obj v_2317868_25 = R[1];
+if (True == v_2318608_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318205_25 = primIsSymbol(v_2317464_25);
-if (True == v_2318205_25) {
-Obj v_2318206_25 = makeCons(co->gc, v_2317464_25, Nil);
-coraReturn(co, v_2318206_25);
-return;
-} else {
-Obj v_2317467_25 = makeNative(co->gc, 1, clofun48, 0, 1, v_2317464_25);
-Obj v_2318360_25 = PRIM_ISCONS(v_2317464_25);
-if (True == v_2318360_25) {
-Obj v_2318361_25 = PRIM_CAR(v_2317464_25);
-Obj v_2318362_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318361_25);
-if (True == v_2318362_25) {
-Obj v_2318363_25 = PRIM_CDR(v_2317464_25);
-Obj v_2318364_25 = PRIM_ISCONS(v_2318363_25);
-if (True == v_2318364_25) {
-Obj v_2318365_25 = PRIM_CDR(v_2317464_25);
-Obj v_2318366_25 = PRIM_CAR(v_2318365_25);
-Obj v_args = v_2318366_25;
-Obj v_2318367_25 = PRIM_CDR(v_2317464_25);
-Obj v_2318368_25 = PRIM_CDR(v_2318367_25);
-Obj v_2318369_25 = PRIM_ISCONS(v_2318368_25);
-if (True == v_2318369_25) {
-Obj v_2318370_25 = PRIM_CDR(v_2317464_25);
-Obj v_2318371_25 = PRIM_CDR(v_2318370_25);
-Obj v_2318372_25 = PRIM_CAR(v_2318371_25);
-Obj v_body = v_2318372_25;
-Obj v_2318373_25 = PRIM_CDR(v_2317464_25);
-Obj v_2318374_25 = PRIM_CDR(v_2318373_25);
-Obj v_2318375_25 = PRIM_CDR(v_2318374_25);
-Obj v_2318376_25 = PRIM_EQ(Nil, v_2318375_25);
-if (True == v_2318376_25) {
+Obj v_2318609_25 = primIsSymbol(v_2317868_25);
+if (True == v_2318609_25) {
+Obj v_2318610_25 = makeCons(co->gc, v_2317868_25, Nil);
+coraReturn(co, v_2318610_25);
+return;
+} else {
+Obj v_2317871_25 = makeNative(co->gc, 1, clofun48, 0, 1, v_2317868_25);
+Obj v_2318764_25 = PRIM_ISCONS(v_2317868_25);
+if (True == v_2318764_25) {
+Obj v_2318765_25 = PRIM_CAR(v_2317868_25);
+Obj v_2318766_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318765_25);
+if (True == v_2318766_25) {
+Obj v_2318767_25 = PRIM_CDR(v_2317868_25);
+Obj v_2318768_25 = PRIM_ISCONS(v_2318767_25);
+if (True == v_2318768_25) {
+Obj v_2318769_25 = PRIM_CDR(v_2317868_25);
+Obj v_2318770_25 = PRIM_CAR(v_2318769_25);
+Obj v_args = v_2318770_25;
+Obj v_2318771_25 = PRIM_CDR(v_2317868_25);
+Obj v_2318772_25 = PRIM_CDR(v_2318771_25);
+Obj v_2318773_25 = PRIM_ISCONS(v_2318772_25);
+if (True == v_2318773_25) {
+Obj v_2318774_25 = PRIM_CDR(v_2317868_25);
+Obj v_2318775_25 = PRIM_CDR(v_2318774_25);
+Obj v_2318776_25 = PRIM_CAR(v_2318775_25);
+Obj v_body = v_2318776_25;
+Obj v_2318777_25 = PRIM_CDR(v_2317868_25);
+Obj v_2318778_25 = PRIM_CDR(v_2318777_25);
+Obj v_2318779_25 = PRIM_CDR(v_2318778_25);
+Obj v_2318780_25 = PRIM_EQ(Nil, v_2318779_25);
+if (True == v_2318780_25) {
 R[1] = v_args;
 saveCont(co, clofun49, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317467_25);
+coraCall0(co, v_2317871_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317467_25);
+coraCall0(co, v_2317871_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317467_25);
+coraCall0(co, v_2317871_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317467_25);
+coraCall0(co, v_2317871_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317467_25);
+coraCall0(co, v_2317871_25);
 return;
 }
 }
@@ -6727,84 +6727,84 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317468_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
-Obj v_2318330_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318330_25) {
-Obj v_2318331_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318332_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318331_25);
-if (True == v_2318332_25) {
-Obj v_2318333_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318334_25 = PRIM_ISCONS(v_2318333_25);
-if (True == v_2318334_25) {
-Obj v_2318335_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318336_25 = PRIM_CAR(v_2318335_25);
-Obj v_x = v_2318336_25;
-Obj v_2318337_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318338_25 = PRIM_CDR(v_2318337_25);
-Obj v_2318339_25 = PRIM_ISCONS(v_2318338_25);
-if (True == v_2318339_25) {
-Obj v_2318340_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318341_25 = PRIM_CDR(v_2318340_25);
-Obj v_2318342_25 = PRIM_CAR(v_2318341_25);
-Obj v_y = v_2318342_25;
-Obj v_2318343_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318344_25 = PRIM_CDR(v_2318343_25);
-Obj v_2318345_25 = PRIM_CDR(v_2318344_25);
-Obj v_2318346_25 = PRIM_ISCONS(v_2318345_25);
-if (True == v_2318346_25) {
-Obj v_2318347_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318348_25 = PRIM_CDR(v_2318347_25);
-Obj v_2318349_25 = PRIM_CDR(v_2318348_25);
-Obj v_2318350_25 = PRIM_CAR(v_2318349_25);
-Obj v_z = v_2318350_25;
-Obj v_2318351_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318352_25 = PRIM_CDR(v_2318351_25);
-Obj v_2318353_25 = PRIM_CDR(v_2318352_25);
-Obj v_2318354_25 = PRIM_CDR(v_2318353_25);
-Obj v_2318355_25 = PRIM_EQ(Nil, v_2318354_25);
-if (True == v_2318355_25) {
-Obj v_2318356_25 = makeCons(co->gc, v_z, Nil);
-Obj v_2318357_25 = makeCons(co->gc, v_y, v_2318356_25);
-Obj v_2318358_25 = makeCons(co->gc, v_x, v_2318357_25);
+Obj v_2317872_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
+Obj v_2318734_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318734_25) {
+Obj v_2318735_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318736_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318735_25);
+if (True == v_2318736_25) {
+Obj v_2318737_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318738_25 = PRIM_ISCONS(v_2318737_25);
+if (True == v_2318738_25) {
+Obj v_2318739_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318740_25 = PRIM_CAR(v_2318739_25);
+Obj v_x = v_2318740_25;
+Obj v_2318741_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318742_25 = PRIM_CDR(v_2318741_25);
+Obj v_2318743_25 = PRIM_ISCONS(v_2318742_25);
+if (True == v_2318743_25) {
+Obj v_2318744_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318745_25 = PRIM_CDR(v_2318744_25);
+Obj v_2318746_25 = PRIM_CAR(v_2318745_25);
+Obj v_y = v_2318746_25;
+Obj v_2318747_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318748_25 = PRIM_CDR(v_2318747_25);
+Obj v_2318749_25 = PRIM_CDR(v_2318748_25);
+Obj v_2318750_25 = PRIM_ISCONS(v_2318749_25);
+if (True == v_2318750_25) {
+Obj v_2318751_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318752_25 = PRIM_CDR(v_2318751_25);
+Obj v_2318753_25 = PRIM_CDR(v_2318752_25);
+Obj v_2318754_25 = PRIM_CAR(v_2318753_25);
+Obj v_z = v_2318754_25;
+Obj v_2318755_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318756_25 = PRIM_CDR(v_2318755_25);
+Obj v_2318757_25 = PRIM_CDR(v_2318756_25);
+Obj v_2318758_25 = PRIM_CDR(v_2318757_25);
+Obj v_2318759_25 = PRIM_EQ(Nil, v_2318758_25);
+if (True == v_2318759_25) {
+Obj v_2318760_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2318761_25 = makeCons(co->gc, v_y, v_2318760_25);
+Obj v_2318762_25 = makeCons(co->gc, v_x, v_2318761_25);
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318358_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318762_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317468_25);
+coraCall0(co, v_2317872_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317468_25);
+coraCall0(co, v_2317872_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317468_25);
+coraCall0(co, v_2317872_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317468_25);
+coraCall0(co, v_2317872_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317468_25);
+coraCall0(co, v_2317872_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317468_25);
+coraCall0(co, v_2317872_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318359_25= co->res;
+Obj v_2318763_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318359_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318763_25);
 return;
 }
 }
@@ -6814,67 +6814,67 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317469_25 = makeNative(co->gc, 3, clofun46, 0, 1, closureRef(R[0], 0));
-Obj v_2318310_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318310_25) {
-Obj v_2318311_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318312_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318311_25);
-if (True == v_2318312_25) {
-Obj v_2318313_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318314_25 = PRIM_ISCONS(v_2318313_25);
-if (True == v_2318314_25) {
-Obj v_2318315_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318316_25 = PRIM_CAR(v_2318315_25);
-Obj v_x = v_2318316_25;
-Obj v_2318317_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318318_25 = PRIM_CDR(v_2318317_25);
-Obj v_2318319_25 = PRIM_ISCONS(v_2318318_25);
-if (True == v_2318319_25) {
-Obj v_2318320_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318321_25 = PRIM_CDR(v_2318320_25);
-Obj v_2318322_25 = PRIM_CAR(v_2318321_25);
-Obj v_y = v_2318322_25;
-Obj v_2318323_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318324_25 = PRIM_CDR(v_2318323_25);
-Obj v_2318325_25 = PRIM_CDR(v_2318324_25);
-Obj v_2318326_25 = PRIM_EQ(Nil, v_2318325_25);
-if (True == v_2318326_25) {
-Obj v_2318327_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2318328_25 = makeCons(co->gc, v_x, v_2318327_25);
+Obj v_2317873_25 = makeNative(co->gc, 3, clofun46, 0, 1, closureRef(R[0], 0));
+Obj v_2318714_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318714_25) {
+Obj v_2318715_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318716_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318715_25);
+if (True == v_2318716_25) {
+Obj v_2318717_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318718_25 = PRIM_ISCONS(v_2318717_25);
+if (True == v_2318718_25) {
+Obj v_2318719_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318720_25 = PRIM_CAR(v_2318719_25);
+Obj v_x = v_2318720_25;
+Obj v_2318721_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318722_25 = PRIM_CDR(v_2318721_25);
+Obj v_2318723_25 = PRIM_ISCONS(v_2318722_25);
+if (True == v_2318723_25) {
+Obj v_2318724_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318725_25 = PRIM_CDR(v_2318724_25);
+Obj v_2318726_25 = PRIM_CAR(v_2318725_25);
+Obj v_y = v_2318726_25;
+Obj v_2318727_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318728_25 = PRIM_CDR(v_2318727_25);
+Obj v_2318729_25 = PRIM_CDR(v_2318728_25);
+Obj v_2318730_25 = PRIM_EQ(Nil, v_2318729_25);
+if (True == v_2318730_25) {
+Obj v_2318731_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2318732_25 = makeCons(co->gc, v_x, v_2318731_25);
 saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318328_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318732_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317469_25);
+coraCall0(co, v_2317873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317469_25);
+coraCall0(co, v_2317873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317469_25);
+coraCall0(co, v_2317873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317469_25);
+coraCall0(co, v_2317873_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317469_25);
+coraCall0(co, v_2317873_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318329_25= co->res;
+Obj v_2318733_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318329_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318733_25);
 return;
 }
 }
@@ -6884,42 +6884,42 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317470_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
-Obj v_2318280_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318280_25) {
-Obj v_2318281_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318282_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318281_25);
-if (True == v_2318282_25) {
-Obj v_2318283_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318284_25 = PRIM_ISCONS(v_2318283_25);
-if (True == v_2318284_25) {
-Obj v_2318285_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318286_25 = PRIM_CAR(v_2318285_25);
-Obj v_a = v_2318286_25;
-Obj v_2318287_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318288_25 = PRIM_CDR(v_2318287_25);
-Obj v_2318289_25 = PRIM_ISCONS(v_2318288_25);
-if (True == v_2318289_25) {
-Obj v_2318290_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318291_25 = PRIM_CDR(v_2318290_25);
-Obj v_2318292_25 = PRIM_CAR(v_2318291_25);
-Obj v_b = v_2318292_25;
-Obj v_2318293_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318294_25 = PRIM_CDR(v_2318293_25);
-Obj v_2318295_25 = PRIM_CDR(v_2318294_25);
-Obj v_2318296_25 = PRIM_ISCONS(v_2318295_25);
-if (True == v_2318296_25) {
-Obj v_2318297_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318298_25 = PRIM_CDR(v_2318297_25);
-Obj v_2318299_25 = PRIM_CDR(v_2318298_25);
-Obj v_2318300_25 = PRIM_CAR(v_2318299_25);
-Obj v_c = v_2318300_25;
-Obj v_2318301_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318302_25 = PRIM_CDR(v_2318301_25);
-Obj v_2318303_25 = PRIM_CDR(v_2318302_25);
-Obj v_2318304_25 = PRIM_CDR(v_2318303_25);
-Obj v_2318305_25 = PRIM_EQ(Nil, v_2318304_25);
-if (True == v_2318305_25) {
+Obj v_2317874_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
+Obj v_2318684_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318684_25) {
+Obj v_2318685_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318686_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318685_25);
+if (True == v_2318686_25) {
+Obj v_2318687_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318688_25 = PRIM_ISCONS(v_2318687_25);
+if (True == v_2318688_25) {
+Obj v_2318689_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318690_25 = PRIM_CAR(v_2318689_25);
+Obj v_a = v_2318690_25;
+Obj v_2318691_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318692_25 = PRIM_CDR(v_2318691_25);
+Obj v_2318693_25 = PRIM_ISCONS(v_2318692_25);
+if (True == v_2318693_25) {
+Obj v_2318694_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318695_25 = PRIM_CDR(v_2318694_25);
+Obj v_2318696_25 = PRIM_CAR(v_2318695_25);
+Obj v_b = v_2318696_25;
+Obj v_2318697_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318698_25 = PRIM_CDR(v_2318697_25);
+Obj v_2318699_25 = PRIM_CDR(v_2318698_25);
+Obj v_2318700_25 = PRIM_ISCONS(v_2318699_25);
+if (True == v_2318700_25) {
+Obj v_2318701_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318702_25 = PRIM_CDR(v_2318701_25);
+Obj v_2318703_25 = PRIM_CDR(v_2318702_25);
+Obj v_2318704_25 = PRIM_CAR(v_2318703_25);
+Obj v_c = v_2318704_25;
+Obj v_2318705_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318706_25 = PRIM_CDR(v_2318705_25);
+Obj v_2318707_25 = PRIM_CDR(v_2318706_25);
+Obj v_2318708_25 = PRIM_CDR(v_2318707_25);
+Obj v_2318709_25 = PRIM_EQ(Nil, v_2318708_25);
+if (True == v_2318709_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun46, 3, R);
@@ -6927,61 +6927,61 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317470_25);
+coraCall0(co, v_2317874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317470_25);
+coraCall0(co, v_2317874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317470_25);
+coraCall0(co, v_2317874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317470_25);
+coraCall0(co, v_2317874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317470_25);
+coraCall0(co, v_2317874_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317470_25);
+coraCall0(co, v_2317874_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318309_25= co->res;
-Obj v_2318306_25 = R[1];
+Obj v_2318713_25= co->res;
+Obj v_2318710_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318306_25, v_2318309_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318710_25, v_2318713_25);
 return;
 }
 case 2:
 {
-Obj v_2318307_25= co->res;
+Obj v_2318711_25= co->res;
 Obj v_a = R[1];
-Obj v_2318306_25 = R[2];
-Obj v_2318308_25 = makeCons(co->gc, v_a, Nil);
-R[1] = v_2318306_25;
+Obj v_2318710_25 = R[2];
+Obj v_2318712_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2318710_25;
 saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318307_25, v_2318308_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318711_25, v_2318712_25);
 return;
 }
 case 3:
 {
-Obj v_2318306_25= co->res;
+Obj v_2318710_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
 R[1] = v_a;
-R[2] = v_2318306_25;
+R[2] = v_2318710_25;
 saveCont(co, clofun46, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_c);
 return;
@@ -6993,38 +6993,38 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317471_25 = makeNative(co->gc, 1, clofun44, 0, 1, closureRef(R[0], 0));
-Obj v_2318270_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318270_25) {
-Obj v_2318271_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318272_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318271_25);
-if (True == v_2318272_25) {
-Obj v_2318273_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318274_25 = PRIM_ISCONS(v_2318273_25);
-if (True == v_2318274_25) {
-Obj v_2318275_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318276_25 = PRIM_CAR(v_2318275_25);
-Obj v_lam = v_2318276_25;
-Obj v_2318277_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318278_25 = PRIM_CDR(v_2318277_25);
-Obj v_more = v_2318278_25;
-Obj v_2318279_25 = makeCons(co->gc, v_lam, v_more);
+Obj v_2317875_25 = makeNative(co->gc, 1, clofun44, 0, 1, closureRef(R[0], 0));
+Obj v_2318674_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318674_25) {
+Obj v_2318675_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318676_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318675_25);
+if (True == v_2318676_25) {
+Obj v_2318677_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318678_25 = PRIM_ISCONS(v_2318677_25);
+if (True == v_2318678_25) {
+Obj v_2318679_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318680_25 = PRIM_CAR(v_2318679_25);
+Obj v_lam = v_2318680_25;
+Obj v_2318681_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318682_25 = PRIM_CDR(v_2318681_25);
+Obj v_more = v_2318682_25;
+Obj v_2318683_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318279_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318683_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317471_25);
+coraCall0(co, v_2317875_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317471_25);
+coraCall0(co, v_2317875_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317471_25);
+coraCall0(co, v_2317875_25);
 return;
 }
 }
@@ -7035,43 +7035,43 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317472_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj v_2318260_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318260_25) {
-Obj v_2318261_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318262_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2318261_25);
-if (True == v_2318262_25) {
-Obj v_2318263_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318264_25 = PRIM_ISCONS(v_2318263_25);
-if (True == v_2318264_25) {
-Obj v_2318265_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318266_25 = PRIM_CAR(v_2318265_25);
-Obj v_x = v_2318266_25;
-Obj v_2318267_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318268_25 = PRIM_CDR(v_2318267_25);
-Obj v_2318269_25 = PRIM_EQ(Nil, v_2318268_25);
-if (True == v_2318269_25) {
+Obj v_2317876_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v_2318664_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318664_25) {
+Obj v_2318665_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318666_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2318665_25);
+if (True == v_2318666_25) {
+Obj v_2318667_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318668_25 = PRIM_ISCONS(v_2318667_25);
+if (True == v_2318668_25) {
+Obj v_2318669_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318670_25 = PRIM_CAR(v_2318669_25);
+Obj v_x = v_2318670_25;
+Obj v_2318671_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318672_25 = PRIM_CDR(v_2318671_25);
+Obj v_2318673_25 = PRIM_EQ(Nil, v_2318672_25);
+if (True == v_2318673_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317472_25);
+coraCall0(co, v_2317876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317472_25);
+coraCall0(co, v_2317876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317472_25);
+coraCall0(co, v_2317876_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317472_25);
+coraCall0(co, v_2317876_25);
 return;
 }
 }
@@ -7082,67 +7082,67 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317473_25 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
-Obj v_2318240_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318240_25) {
-Obj v_2318241_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318242_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318241_25);
-if (True == v_2318242_25) {
-Obj v_2318243_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318244_25 = PRIM_ISCONS(v_2318243_25);
-if (True == v_2318244_25) {
-Obj v_2318245_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318246_25 = PRIM_CAR(v_2318245_25);
-Obj v_exp = v_2318246_25;
-Obj v_2318247_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318248_25 = PRIM_CDR(v_2318247_25);
-Obj v_2318249_25 = PRIM_ISCONS(v_2318248_25);
-if (True == v_2318249_25) {
-Obj v_2318250_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318251_25 = PRIM_CDR(v_2318250_25);
-Obj v_2318252_25 = PRIM_CAR(v_2318251_25);
-Obj v_cont = v_2318252_25;
-Obj v_2318253_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318254_25 = PRIM_CDR(v_2318253_25);
-Obj v_2318255_25 = PRIM_CDR(v_2318254_25);
-Obj v_2318256_25 = PRIM_EQ(Nil, v_2318255_25);
-if (True == v_2318256_25) {
-Obj v_2318257_25 = makeCons(co->gc, v_cont, Nil);
-Obj v_2318258_25 = makeCons(co->gc, v_exp, v_2318257_25);
+Obj v_2317877_25 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v_2318644_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318644_25) {
+Obj v_2318645_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318646_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318645_25);
+if (True == v_2318646_25) {
+Obj v_2318647_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318648_25 = PRIM_ISCONS(v_2318647_25);
+if (True == v_2318648_25) {
+Obj v_2318649_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318650_25 = PRIM_CAR(v_2318649_25);
+Obj v_exp = v_2318650_25;
+Obj v_2318651_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318652_25 = PRIM_CDR(v_2318651_25);
+Obj v_2318653_25 = PRIM_ISCONS(v_2318652_25);
+if (True == v_2318653_25) {
+Obj v_2318654_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318655_25 = PRIM_CDR(v_2318654_25);
+Obj v_2318656_25 = PRIM_CAR(v_2318655_25);
+Obj v_cont = v_2318656_25;
+Obj v_2318657_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318658_25 = PRIM_CDR(v_2318657_25);
+Obj v_2318659_25 = PRIM_CDR(v_2318658_25);
+Obj v_2318660_25 = PRIM_EQ(Nil, v_2318659_25);
+if (True == v_2318660_25) {
+Obj v_2318661_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2318662_25 = makeCons(co->gc, v_exp, v_2318661_25);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318258_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318662_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317473_25);
+coraCall0(co, v_2317877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317473_25);
+coraCall0(co, v_2317877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317473_25);
+coraCall0(co, v_2317877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317473_25);
+coraCall0(co, v_2317877_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317473_25);
+coraCall0(co, v_2317877_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318259_25= co->res;
+Obj v_2318663_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318259_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318663_25);
 return;
 }
 }
@@ -7152,43 +7152,43 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317474_25 = makeNative(co->gc, 2, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v_2318230_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318230_25) {
-Obj v_2318231_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318232_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318231_25);
-if (True == v_2318232_25) {
-Obj v_2318233_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318234_25 = PRIM_ISCONS(v_2318233_25);
-if (True == v_2318234_25) {
-Obj v_2318235_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318236_25 = PRIM_CAR(v_2318235_25);
-Obj v_exp = v_2318236_25;
-Obj v_2318237_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318238_25 = PRIM_CDR(v_2318237_25);
-Obj v_2318239_25 = PRIM_EQ(Nil, v_2318238_25);
-if (True == v_2318239_25) {
+Obj v_2317878_25 = makeNative(co->gc, 2, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v_2318634_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318634_25) {
+Obj v_2318635_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318636_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318635_25);
+if (True == v_2318636_25) {
+Obj v_2318637_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318638_25 = PRIM_ISCONS(v_2318637_25);
+if (True == v_2318638_25) {
+Obj v_2318639_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318640_25 = PRIM_CAR(v_2318639_25);
+Obj v_exp = v_2318640_25;
+Obj v_2318641_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318642_25 = PRIM_CDR(v_2318641_25);
+Obj v_2318643_25 = PRIM_EQ(Nil, v_2318642_25);
+if (True == v_2318643_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317474_25);
+coraCall0(co, v_2317878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317474_25);
+coraCall0(co, v_2317878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317474_25);
+coraCall0(co, v_2317878_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317474_25);
+coraCall0(co, v_2317878_25);
 return;
 }
 }
@@ -7199,67 +7199,67 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317475_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v_2318212_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318212_25) {
-Obj v_2318213_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318214_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318213_25);
-if (True == v_2318214_25) {
-Obj v_2318215_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318216_25 = PRIM_ISCONS(v_2318215_25);
-if (True == v_2318216_25) {
-Obj v_2318217_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318218_25 = PRIM_CAR(v_2318217_25);
-Obj v_arg = v_2318218_25;
-Obj v_2318219_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318220_25 = PRIM_CDR(v_2318219_25);
-Obj v_2318221_25 = PRIM_ISCONS(v_2318220_25);
-if (True == v_2318221_25) {
-Obj v_2318222_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318223_25 = PRIM_CDR(v_2318222_25);
-Obj v_2318224_25 = PRIM_CAR(v_2318223_25);
-Obj v_body = v_2318224_25;
-Obj v_2318225_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318226_25 = PRIM_CDR(v_2318225_25);
-Obj v_2318227_25 = PRIM_CDR(v_2318226_25);
-Obj v_2318228_25 = PRIM_EQ(Nil, v_2318227_25);
-if (True == v_2318228_25) {
+Obj v_2317879_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v_2318616_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318616_25) {
+Obj v_2318617_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318618_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318617_25);
+if (True == v_2318618_25) {
+Obj v_2318619_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318620_25 = PRIM_ISCONS(v_2318619_25);
+if (True == v_2318620_25) {
+Obj v_2318621_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318622_25 = PRIM_CAR(v_2318621_25);
+Obj v_arg = v_2318622_25;
+Obj v_2318623_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318624_25 = PRIM_CDR(v_2318623_25);
+Obj v_2318625_25 = PRIM_ISCONS(v_2318624_25);
+if (True == v_2318625_25) {
+Obj v_2318626_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318627_25 = PRIM_CDR(v_2318626_25);
+Obj v_2318628_25 = PRIM_CAR(v_2318627_25);
+Obj v_body = v_2318628_25;
+Obj v_2318629_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318630_25 = PRIM_CDR(v_2318629_25);
+Obj v_2318631_25 = PRIM_CDR(v_2318630_25);
+Obj v_2318632_25 = PRIM_EQ(Nil, v_2318631_25);
+if (True == v_2318632_25) {
 R[1] = v_arg;
 saveCont(co, clofun41, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317475_25);
+coraCall0(co, v_2317879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317475_25);
+coraCall0(co, v_2317879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317475_25);
+coraCall0(co, v_2317879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317475_25);
+coraCall0(co, v_2317879_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317475_25);
+coraCall0(co, v_2317879_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318229_25= co->res;
+Obj v_2318633_25= co->res;
 Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318229_25, v_arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318633_25, v_arg);
 return;
 }
 }
@@ -7269,15 +7269,15 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318207_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318207_25) {
-Obj v_2318208_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318208_25;
-Obj v_2318209_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318209_25;
-Obj v_2318210_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318611_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318611_25) {
+Obj v_2318612_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318612_25;
+Obj v_2318613_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318613_25;
+Obj v_2318614_25 = makeCons(co->gc, v_f, v_args);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318210_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318614_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -7287,9 +7287,9 @@ return;
 }
 case 1:
 {
-Obj v_2318211_25= co->res;
+Obj v_2318615_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318211_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318615_25);
 return;
 }
 }
@@ -7299,42 +7299,42 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317456_25 = R[1];
-Obj v_2317457_25 = makeNative(co->gc, 1, clofun38, 0, 1, v_2317456_25);
-Obj v_2318193_25 = PRIM_ISCONS(v_2317456_25);
-if (True == v_2318193_25) {
-Obj v_2318194_25 = PRIM_CAR(v_2317456_25);
-Obj v_2318195_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318194_25);
-if (True == v_2318195_25) {
-Obj v_2318196_25 = PRIM_CDR(v_2317456_25);
-Obj v_2318197_25 = PRIM_ISCONS(v_2318196_25);
-if (True == v_2318197_25) {
-Obj v_2318198_25 = PRIM_CDR(v_2317456_25);
-Obj v_2318199_25 = PRIM_CAR(v_2318198_25);
-Obj v_2318200_25 = PRIM_CDR(v_2317456_25);
-Obj v_2318201_25 = PRIM_CDR(v_2318200_25);
-Obj v_2318202_25 = PRIM_EQ(Nil, v_2318201_25);
-if (True == v_2318202_25) {
+Obj v_2317860_25 = R[1];
+Obj v_2317861_25 = makeNative(co->gc, 1, clofun38, 0, 1, v_2317860_25);
+Obj v_2318597_25 = PRIM_ISCONS(v_2317860_25);
+if (True == v_2318597_25) {
+Obj v_2318598_25 = PRIM_CAR(v_2317860_25);
+Obj v_2318599_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318598_25);
+if (True == v_2318599_25) {
+Obj v_2318600_25 = PRIM_CDR(v_2317860_25);
+Obj v_2318601_25 = PRIM_ISCONS(v_2318600_25);
+if (True == v_2318601_25) {
+Obj v_2318602_25 = PRIM_CDR(v_2317860_25);
+Obj v_2318603_25 = PRIM_CAR(v_2318602_25);
+Obj v_2318604_25 = PRIM_CDR(v_2317860_25);
+Obj v_2318605_25 = PRIM_CDR(v_2318604_25);
+Obj v_2318606_25 = PRIM_EQ(Nil, v_2318605_25);
+if (True == v_2318606_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317457_25);
+coraCall0(co, v_2317861_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317457_25);
+coraCall0(co, v_2317861_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317457_25);
+coraCall0(co, v_2317861_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317457_25);
+coraCall0(co, v_2317861_25);
 return;
 }
 }
@@ -7345,41 +7345,41 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317458_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v_2318183_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318183_25) {
-Obj v_2318184_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318185_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318184_25);
-if (True == v_2318185_25) {
-Obj v_2318186_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318187_25 = PRIM_ISCONS(v_2318186_25);
-if (True == v_2318187_25) {
-Obj v_2318188_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318189_25 = PRIM_CAR(v_2318188_25);
-Obj v_2318190_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318191_25 = PRIM_CDR(v_2318190_25);
-Obj v_2318192_25 = PRIM_EQ(Nil, v_2318191_25);
-if (True == v_2318192_25) {
+Obj v_2317862_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2318587_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318587_25) {
+Obj v_2318588_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318589_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318588_25);
+if (True == v_2318589_25) {
+Obj v_2318590_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318591_25 = PRIM_ISCONS(v_2318590_25);
+if (True == v_2318591_25) {
+Obj v_2318592_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318593_25 = PRIM_CAR(v_2318592_25);
+Obj v_2318594_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318595_25 = PRIM_CDR(v_2318594_25);
+Obj v_2318596_25 = PRIM_EQ(Nil, v_2318595_25);
+if (True == v_2318596_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317458_25);
+coraCall0(co, v_2317862_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317458_25);
+coraCall0(co, v_2317862_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317458_25);
+coraCall0(co, v_2317862_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317458_25);
+coraCall0(co, v_2317862_25);
 return;
 }
 }
@@ -7390,41 +7390,41 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317459_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v_2318173_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318173_25) {
-Obj v_2318174_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318175_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318174_25);
-if (True == v_2318175_25) {
-Obj v_2318176_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318177_25 = PRIM_ISCONS(v_2318176_25);
-if (True == v_2318177_25) {
-Obj v_2318178_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318179_25 = PRIM_CAR(v_2318178_25);
-Obj v_2318180_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318181_25 = PRIM_CDR(v_2318180_25);
-Obj v_2318182_25 = PRIM_EQ(Nil, v_2318181_25);
-if (True == v_2318182_25) {
+Obj v_2317863_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v_2318577_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318577_25) {
+Obj v_2318578_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318579_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318578_25);
+if (True == v_2318579_25) {
+Obj v_2318580_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318581_25 = PRIM_ISCONS(v_2318580_25);
+if (True == v_2318581_25) {
+Obj v_2318582_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318583_25 = PRIM_CAR(v_2318582_25);
+Obj v_2318584_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318585_25 = PRIM_CDR(v_2318584_25);
+Obj v_2318586_25 = PRIM_EQ(Nil, v_2318585_25);
+if (True == v_2318586_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317459_25);
+coraCall0(co, v_2317863_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317459_25);
+coraCall0(co, v_2317863_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317459_25);
+coraCall0(co, v_2317863_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317459_25);
+coraCall0(co, v_2317863_25);
 return;
 }
 }
@@ -7435,41 +7435,41 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317460_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v_2318163_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318163_25) {
-Obj v_2318164_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318165_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318164_25);
-if (True == v_2318165_25) {
-Obj v_2318166_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318167_25 = PRIM_ISCONS(v_2318166_25);
-if (True == v_2318167_25) {
-Obj v_2318168_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318169_25 = PRIM_CAR(v_2318168_25);
-Obj v_2318170_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318171_25 = PRIM_CDR(v_2318170_25);
-Obj v_2318172_25 = PRIM_EQ(Nil, v_2318171_25);
-if (True == v_2318172_25) {
+Obj v_2317864_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v_2318567_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318567_25) {
+Obj v_2318568_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318569_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318568_25);
+if (True == v_2318569_25) {
+Obj v_2318570_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318571_25 = PRIM_ISCONS(v_2318570_25);
+if (True == v_2318571_25) {
+Obj v_2318572_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318573_25 = PRIM_CAR(v_2318572_25);
+Obj v_2318574_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318575_25 = PRIM_CDR(v_2318574_25);
+Obj v_2318576_25 = PRIM_EQ(Nil, v_2318575_25);
+if (True == v_2318576_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317460_25);
+coraCall0(co, v_2317864_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317460_25);
+coraCall0(co, v_2317864_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317460_25);
+coraCall0(co, v_2317864_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317460_25);
+coraCall0(co, v_2317864_25);
 return;
 }
 }
@@ -7480,41 +7480,41 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317461_25 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v_2318153_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318153_25) {
-Obj v_2318154_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318155_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318154_25);
-if (True == v_2318155_25) {
-Obj v_2318156_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318157_25 = PRIM_ISCONS(v_2318156_25);
-if (True == v_2318157_25) {
-Obj v_2318158_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318159_25 = PRIM_CAR(v_2318158_25);
-Obj v_2318160_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318161_25 = PRIM_CDR(v_2318160_25);
-Obj v_2318162_25 = PRIM_EQ(Nil, v_2318161_25);
-if (True == v_2318162_25) {
+Obj v_2317865_25 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v_2318557_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318557_25) {
+Obj v_2318558_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318559_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318558_25);
+if (True == v_2318559_25) {
+Obj v_2318560_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318561_25 = PRIM_ISCONS(v_2318560_25);
+if (True == v_2318561_25) {
+Obj v_2318562_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318563_25 = PRIM_CAR(v_2318562_25);
+Obj v_2318564_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318565_25 = PRIM_CDR(v_2318564_25);
+Obj v_2318566_25 = PRIM_EQ(Nil, v_2318565_25);
+if (True == v_2318566_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317461_25);
+coraCall0(co, v_2317865_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317461_25);
+coraCall0(co, v_2317865_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317461_25);
+coraCall0(co, v_2317865_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317461_25);
+coraCall0(co, v_2317865_25);
 return;
 }
 }
@@ -7525,50 +7525,50 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317462_25 = makeNative(co->gc, 1, clofun33, 0, 0);
-Obj v_2318143_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318143_25) {
-Obj v_2318144_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318145_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318144_25);
-if (True == v_2318145_25) {
-Obj v_2318146_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318147_25 = PRIM_ISCONS(v_2318146_25);
-if (True == v_2318147_25) {
-Obj v_2318148_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318149_25 = PRIM_CAR(v_2318148_25);
-Obj v_label = v_2318149_25;
-Obj v_2318150_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318151_25 = PRIM_CDR(v_2318150_25);
-R[1] = v_2317462_25;
+Obj v_2317866_25 = makeNative(co->gc, 1, clofun33, 0, 0);
+Obj v_2318547_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318547_25) {
+Obj v_2318548_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318549_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318548_25);
+if (True == v_2318549_25) {
+Obj v_2318550_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318551_25 = PRIM_ISCONS(v_2318550_25);
+if (True == v_2318551_25) {
+Obj v_2318552_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318553_25 = PRIM_CAR(v_2318552_25);
+Obj v_label = v_2318553_25;
+Obj v_2318554_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318555_25 = PRIM_CDR(v_2318554_25);
+R[1] = v_2317866_25;
 saveCont(co, clofun34, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317462_25);
+coraCall0(co, v_2317866_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317462_25);
+coraCall0(co, v_2317866_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317462_25);
+coraCall0(co, v_2317866_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318152_25= co->res;
-Obj v_2317462_25 = R[1];
-if (True == v_2318152_25) {
+Obj v_2318556_25= co->res;
+Obj v_2317866_25 = R[1];
+if (True == v_2318556_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317462_25);
+coraCall0(co, v_2317866_25);
 return;
 }
 }
@@ -7589,46 +7589,46 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317451_25 = R[1];
-Obj v_2317452_25 = R[2];
-Obj v_2318132_25 = PRIM_EQ(Nil, v_2317451_25);
-if (True == v_2318132_25) {
+Obj v_2317855_25 = R[1];
+Obj v_2317856_25 = R[2];
+Obj v_2318536_25 = PRIM_EQ(Nil, v_2317855_25);
+if (True == v_2318536_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317454_25 = makeNative(co->gc, 2, clofun31, 0, 2, v_2317451_25, v_2317452_25);
-Obj v_2318138_25 = PRIM_ISCONS(v_2317451_25);
-if (True == v_2318138_25) {
-Obj v_2318139_25 = PRIM_CAR(v_2317451_25);
-Obj v_x = v_2318139_25;
-Obj v_2318140_25 = PRIM_CDR(v_2317451_25);
-Obj v_y = v_2318140_25;
+Obj v_2317858_25 = makeNative(co->gc, 2, clofun31, 0, 2, v_2317855_25, v_2317856_25);
+Obj v_2318542_25 = PRIM_ISCONS(v_2317855_25);
+if (True == v_2318542_25) {
+Obj v_2318543_25 = PRIM_CAR(v_2317855_25);
+Obj v_x = v_2318543_25;
+Obj v_2318544_25 = PRIM_CDR(v_2317855_25);
+Obj v_y = v_2318544_25;
 R[1] = v_y;
-R[2] = v_2317452_25;
-R[3] = v_2317454_25;
+R[2] = v_2317856_25;
+R[3] = v_2317858_25;
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317452_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317856_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317454_25);
+coraCall0(co, v_2317858_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318141_25= co->res;
+Obj v_2318545_25= co->res;
 Obj v_y = R[1];
-Obj v_2317452_25 = R[2];
-Obj v_2317454_25 = R[3];
-if (True == v_2318141_25) {
+Obj v_2317856_25 = R[2];
+Obj v_2317858_25 = R[3];
+if (True == v_2318545_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2317452_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2317856_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317454_25);
+coraCall0(co, v_2317858_25);
 return;
 }
 }
@@ -7639,12 +7639,12 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318133_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318133_25) {
-Obj v_2318134_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318134_25;
-Obj v_2318135_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318135_25;
+Obj v_2318537_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318537_25) {
+Obj v_2318538_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318538_25;
+Obj v_2318539_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318539_25;
 R[1] = v_x;
 saveCont(co, clofun31, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, closureRef(R[0], 1));
@@ -7657,10 +7657,10 @@ return;
 }
 case 1:
 {
-Obj v_2318136_25= co->res;
+Obj v_2318540_25= co->res;
 Obj v_x = R[1];
-Obj v_2318137_25 = makeCons(co->gc, v_x, v_2318136_25);
-coraReturn(co, v_2318137_25);
+Obj v_2318541_25 = makeCons(co->gc, v_x, v_2318540_25);
+coraReturn(co, v_2318541_25);
 return;
 }
 }
@@ -7670,46 +7670,46 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317446_25 = R[1];
-Obj v_2317447_25 = R[2];
-Obj v_2318121_25 = PRIM_EQ(Nil, v_2317446_25);
-if (True == v_2318121_25) {
-coraReturn(co, v_2317447_25);
+Obj v_2317850_25 = R[1];
+Obj v_2317851_25 = R[2];
+Obj v_2318525_25 = PRIM_EQ(Nil, v_2317850_25);
+if (True == v_2318525_25) {
+coraReturn(co, v_2317851_25);
 return;
 } else {
-Obj v_2317449_25 = makeNative(co->gc, 2, clofun29, 0, 2, v_2317446_25, v_2317447_25);
-Obj v_2318127_25 = PRIM_ISCONS(v_2317446_25);
-if (True == v_2318127_25) {
-Obj v_2318128_25 = PRIM_CAR(v_2317446_25);
-Obj v_x = v_2318128_25;
-Obj v_2318129_25 = PRIM_CDR(v_2317446_25);
-Obj v_y = v_2318129_25;
+Obj v_2317853_25 = makeNative(co->gc, 2, clofun29, 0, 2, v_2317850_25, v_2317851_25);
+Obj v_2318531_25 = PRIM_ISCONS(v_2317850_25);
+if (True == v_2318531_25) {
+Obj v_2318532_25 = PRIM_CAR(v_2317850_25);
+Obj v_x = v_2318532_25;
+Obj v_2318533_25 = PRIM_CDR(v_2317850_25);
+Obj v_y = v_2318533_25;
 R[1] = v_y;
-R[2] = v_2317447_25;
-R[3] = v_2317449_25;
+R[2] = v_2317851_25;
+R[3] = v_2317853_25;
 saveCont(co, clofun30, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317447_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317851_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317449_25);
+coraCall0(co, v_2317853_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318130_25= co->res;
+Obj v_2318534_25= co->res;
 Obj v_y = R[1];
-Obj v_2317447_25 = R[2];
-Obj v_2317449_25 = R[3];
-if (True == v_2318130_25) {
+Obj v_2317851_25 = R[2];
+Obj v_2317853_25 = R[3];
+if (True == v_2318534_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2317447_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2317851_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317449_25);
+coraCall0(co, v_2317853_25);
 return;
 }
 }
@@ -7720,12 +7720,12 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318122_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318122_25) {
-Obj v_2318123_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318123_25;
-Obj v_2318124_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318124_25;
+Obj v_2318526_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318526_25) {
+Obj v_2318527_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318527_25;
+Obj v_2318528_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318528_25;
 R[1] = v_x;
 saveCont(co, clofun29, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, closureRef(R[0], 1));
@@ -7738,10 +7738,10 @@ return;
 }
 case 1:
 {
-Obj v_2318125_25= co->res;
+Obj v_2318529_25= co->res;
 Obj v_x = R[1];
-Obj v_2318126_25 = makeCons(co->gc, v_x, v_2318125_25);
-coraReturn(co, v_2318126_25);
+Obj v_2318530_25 = makeCons(co->gc, v_x, v_2318529_25);
+coraReturn(co, v_2318530_25);
 return;
 }
 }
@@ -7751,67 +7751,67 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317431_25 = R[1];
-Obj v_2317432_25 = R[2];
-Obj v_2317433_25 = R[3];
-Obj v_2317434_25 = R[4];
-Obj v_2317598_25 = makeNative(co->gc, 2, clofun27, 1, 4, v_2317432_25, v_2317431_25, v_2317434_25, v_2317433_25);
-R[1] = v_2317434_25;
-R[2] = v_2317598_25;
+Obj v_2317835_25 = R[1];
+Obj v_2317836_25 = R[2];
+Obj v_2317837_25 = R[3];
+Obj v_2317838_25 = R[4];
+Obj v_2318002_25 = makeNative(co->gc, 2, clofun27, 1, 4, v_2317836_25, v_2317835_25, v_2317838_25, v_2317837_25);
+R[1] = v_2317838_25;
+R[2] = v_2318002_25;
 saveCont(co, clofun28, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317434_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317838_25);
 return;
 }
 case 1:
 {
-Obj v_2318119_25= co->res;
-Obj v_2317598_25 = R[1];
-if (True == v_2318119_25) {
+Obj v_2318523_25= co->res;
+Obj v_2318002_25 = R[1];
+if (True == v_2318523_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317598_25, True);
+coraCall1(co, v_2318002_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317598_25, False);
+coraCall1(co, v_2318002_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318118_25= co->res;
-Obj v_2317434_25 = R[1];
-Obj v_2317598_25 = R[2];
-if (True == v_2318118_25) {
+Obj v_2318522_25= co->res;
+Obj v_2317838_25 = R[1];
+Obj v_2318002_25 = R[2];
+if (True == v_2318522_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317598_25, True);
+coraCall1(co, v_2318002_25, True);
 return;
 } else {
-R[1] = v_2317598_25;
+R[1] = v_2318002_25;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317434_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317838_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2318116_25= co->res;
-Obj v_2317434_25 = R[1];
-Obj v_2317598_25 = R[2];
-if (True == v_2318116_25) {
+Obj v_2318520_25= co->res;
+Obj v_2317838_25 = R[1];
+Obj v_2318002_25 = R[2];
+if (True == v_2318520_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317598_25, True);
+coraCall1(co, v_2318002_25, True);
 return;
 } else {
-Obj v_2318117_25 = primIsString(v_2317434_25);
-if (True == v_2318117_25) {
+Obj v_2318521_25 = primIsString(v_2317838_25);
+if (True == v_2318521_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317598_25, True);
+coraCall1(co, v_2318002_25, True);
 return;
 } else {
-R[1] = v_2317434_25;
-R[2] = v_2317598_25;
+R[1] = v_2317838_25;
+R[2] = v_2318002_25;
 saveCont(co, clofun28, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2317434_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2317838_25);
 return;
 }
 }
@@ -7823,50 +7823,50 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317599_25 = R[1];
-if (True == v_2317599_25) {
-Obj v_2317921_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2317922_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317921_25);
-coraReturn(co, v_2317922_25);
+Obj v_2318003_25 = R[1];
+if (True == v_2318003_25) {
+Obj v_2318325_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2318326_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318325_25);
+coraReturn(co, v_2318326_25);
 return;
 } else {
-Obj v_2317436_25 = makeNative(co->gc, 4, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
-Obj v_2318106_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318106_25) {
-Obj v_2318107_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318108_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318107_25);
-if (True == v_2318108_25) {
-Obj v_2318109_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318110_25 = PRIM_ISCONS(v_2318109_25);
-if (True == v_2318110_25) {
-Obj v_2318111_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318112_25 = PRIM_CAR(v_2318111_25);
-Obj v_x = v_2318112_25;
-Obj v_2318113_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318114_25 = PRIM_CDR(v_2318113_25);
-Obj v_2318115_25 = PRIM_EQ(Nil, v_2318114_25);
-if (True == v_2318115_25) {
+Obj v_2317840_25 = makeNative(co->gc, 4, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
+Obj v_2318510_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318510_25) {
+Obj v_2318511_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318512_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318511_25);
+if (True == v_2318512_25) {
+Obj v_2318513_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318514_25 = PRIM_ISCONS(v_2318513_25);
+if (True == v_2318514_25) {
+Obj v_2318515_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318516_25 = PRIM_CAR(v_2318515_25);
+Obj v_x = v_2318516_25;
+Obj v_2318517_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318518_25 = PRIM_CDR(v_2318517_25);
+Obj v_2318519_25 = PRIM_EQ(Nil, v_2318518_25);
+if (True == v_2318519_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317436_25);
+coraCall0(co, v_2317840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317436_25);
+coraCall0(co, v_2317840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317436_25);
+coraCall0(co, v_2317840_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317436_25);
+coraCall0(co, v_2317840_25);
 return;
 }
 }
@@ -7878,39 +7878,39 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317923_25 = primIsSymbol(closureRef(R[0], 1));
-if (True == v_2317923_25) {
+Obj v_2318327_25 = primIsSymbol(closureRef(R[0], 1));
+if (True == v_2318327_25) {
 saveCont(co, clofun26, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2317438_25 = makeNative(co->gc, 1, clofun25, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
-Obj v_2318081_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318081_25) {
-Obj v_2318082_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318083_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318082_25);
-if (True == v_2318083_25) {
-Obj v_2318084_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318085_25 = PRIM_ISCONS(v_2318084_25);
-if (True == v_2318085_25) {
-Obj v_2318086_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318087_25 = PRIM_CAR(v_2318086_25);
-Obj v_args = v_2318087_25;
-Obj v_2318088_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318089_25 = PRIM_CDR(v_2318088_25);
-Obj v_2318090_25 = PRIM_ISCONS(v_2318089_25);
-if (True == v_2318090_25) {
-Obj v_2318091_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318092_25 = PRIM_CDR(v_2318091_25);
-Obj v_2318093_25 = PRIM_CAR(v_2318092_25);
-Obj v_body = v_2318093_25;
-Obj v_2318094_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318095_25 = PRIM_CDR(v_2318094_25);
-Obj v_2318096_25 = PRIM_CDR(v_2318095_25);
-Obj v_2318097_25 = PRIM_EQ(Nil, v_2318096_25);
-if (True == v_2318097_25) {
-Obj v_2318098_25 = primGenSym(co);
-Obj v_used1 = v_2318098_25;
+Obj v_2317842_25 = makeNative(co->gc, 1, clofun25, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
+Obj v_2318485_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318485_25) {
+Obj v_2318486_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318487_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318486_25);
+if (True == v_2318487_25) {
+Obj v_2318488_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318489_25 = PRIM_ISCONS(v_2318488_25);
+if (True == v_2318489_25) {
+Obj v_2318490_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318491_25 = PRIM_CAR(v_2318490_25);
+Obj v_args = v_2318491_25;
+Obj v_2318492_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318493_25 = PRIM_CDR(v_2318492_25);
+Obj v_2318494_25 = PRIM_ISCONS(v_2318493_25);
+if (True == v_2318494_25) {
+Obj v_2318495_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318496_25 = PRIM_CDR(v_2318495_25);
+Obj v_2318497_25 = PRIM_CAR(v_2318496_25);
+Obj v_body = v_2318497_25;
+Obj v_2318498_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318499_25 = PRIM_CDR(v_2318498_25);
+Obj v_2318500_25 = PRIM_CDR(v_2318499_25);
+Obj v_2318501_25 = PRIM_EQ(Nil, v_2318500_25);
+if (True == v_2318501_25) {
+Obj v_2318502_25 = primGenSym(co);
+Obj v_used1 = v_2318502_25;
 R[1] = v_args;
 R[2] = v_used1;
 R[3] = v_body;
@@ -7919,57 +7919,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBin
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317438_25);
+coraCall0(co, v_2317842_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317438_25);
+coraCall0(co, v_2317842_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317438_25);
+coraCall0(co, v_2317842_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317438_25);
+coraCall0(co, v_2317842_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317438_25);
+coraCall0(co, v_2317842_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317926_25= co->res;
-Obj v_2317927_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v_2317928_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2317927_25);
-coraReturn(co, v_2317928_25);
+Obj v_2318330_25= co->res;
+Obj v_2318331_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2318332_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318331_25);
+coraReturn(co, v_2318332_25);
 return;
 }
 case 2:
 {
-Obj v_2317925_25= co->res;
+Obj v_2318329_25= co->res;
 Obj v_find = R[1];
-if (True == v_2317925_25) {
+if (True == v_2318329_25) {
 saveCont(co, clofun26, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), closureRef(R[0], 1), closureRef(R[0], 3));
 return;
 } else {
-Obj v_2317929_25 = PRIM_CDR(v_find);
-coraReturn(co, v_2317929_25);
+Obj v_2318333_25 = PRIM_CDR(v_find);
+coraReturn(co, v_2318333_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2317924_25= co->res;
-Obj v_find = v_2317924_25;
+Obj v_2318328_25= co->res;
+Obj v_find = v_2318328_25;
 R[1] = v_find;
 saveCont(co, clofun26, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
@@ -7977,33 +7977,33 @@ return;
 }
 case 4:
 {
-Obj v_2318102_25= co->res;
+Obj v_2318506_25= co->res;
 Obj v_args1 = R[1];
-Obj v_2318103_25 = makeCons(co->gc, v_2318102_25, Nil);
-Obj v_2318104_25 = makeCons(co->gc, v_args1, v_2318103_25);
-Obj v_2318105_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318104_25);
-coraReturn(co, v_2318105_25);
+Obj v_2318507_25 = makeCons(co->gc, v_2318506_25, Nil);
+Obj v_2318508_25 = makeCons(co->gc, v_args1, v_2318507_25);
+Obj v_2318509_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318508_25);
+coraReturn(co, v_2318509_25);
 return;
 }
 case 5:
 {
-Obj v_2318101_25= co->res;
+Obj v_2318505_25= co->res;
 Obj v_used1 = R[1];
 Obj v_body = R[2];
 Obj v_args1 = R[3];
 R[1] = v_args1;
 saveCont(co, clofun26, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318101_25, v_used1, closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318505_25, v_used1, closureRef(R[0], 3), v_body);
 return;
 }
 case 6:
 {
-Obj v_2318099_25= co->res;
+Obj v_2318503_25= co->res;
 Obj v_args = R[1];
 Obj v_used1 = R[2];
 Obj v_body = R[3];
-Obj v_args1 = v_2318099_25;
-Obj v_2318100_25 = primSet(co, v_used1, v_args);
+Obj v_args1 = v_2318503_25;
+Obj v_2318504_25 = primSet(co, v_used1, v_args);
 R[1] = v_used1;
 R[2] = v_body;
 R[3] = v_args1;
@@ -8018,74 +8018,74 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317439_25 = makeNative(co->gc, 2, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318049_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318049_25) {
-Obj v_2318050_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318051_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318050_25);
-if (True == v_2318051_25) {
-Obj v_2318052_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318053_25 = PRIM_ISCONS(v_2318052_25);
-if (True == v_2318053_25) {
-Obj v_2318054_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318055_25 = PRIM_CAR(v_2318054_25);
-Obj v_2318056_25 = PRIM_ISCONS(v_2318055_25);
-if (True == v_2318056_25) {
-Obj v_2318057_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318058_25 = PRIM_CAR(v_2318057_25);
-Obj v_2318059_25 = PRIM_CAR(v_2318058_25);
-Obj v_2318060_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318059_25);
-if (True == v_2318060_25) {
-Obj v_2318061_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318062_25 = PRIM_CAR(v_2318061_25);
-Obj v_2318063_25 = PRIM_CDR(v_2318062_25);
-Obj v_exp1 = v_2318063_25;
-Obj v_2318064_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318065_25 = PRIM_CDR(v_2318064_25);
-Obj v_exp2 = v_2318065_25;
-Obj v_2318066_25 = primGenSym(co);
-Obj v_f = v_2318066_25;
-Obj v_2318067_25 = primGenSym(co);
-Obj v_v = v_2318067_25;
-Obj v_2318068_25 = makeCons(co->gc, v_v, Nil);
-Obj v_2318069_25 = makeCons(co->gc, v_v, v_exp2);
-Obj v_2318070_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318069_25);
-Obj v_2318071_25 = makeCons(co->gc, v_2318070_25, Nil);
-Obj v_2318072_25 = makeCons(co->gc, v_2318068_25, v_2318071_25);
-Obj v_2318073_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318072_25);
-Obj v_2318074_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp1);
-Obj v_2318075_25 = makeCons(co->gc, v_2318074_25, Nil);
-Obj v_2318076_25 = makeCons(co->gc, v_f, v_2318075_25);
-Obj v_2318077_25 = makeCons(co->gc, v_2318076_25, Nil);
-Obj v_2318078_25 = makeCons(co->gc, v_2318073_25, v_2318077_25);
-Obj v_2318079_25 = makeCons(co->gc, v_f, v_2318078_25);
-Obj v_2318080_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318079_25);
+Obj v_2317843_25 = makeNative(co->gc, 2, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318453_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318453_25) {
+Obj v_2318454_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318455_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318454_25);
+if (True == v_2318455_25) {
+Obj v_2318456_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318457_25 = PRIM_ISCONS(v_2318456_25);
+if (True == v_2318457_25) {
+Obj v_2318458_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318459_25 = PRIM_CAR(v_2318458_25);
+Obj v_2318460_25 = PRIM_ISCONS(v_2318459_25);
+if (True == v_2318460_25) {
+Obj v_2318461_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318462_25 = PRIM_CAR(v_2318461_25);
+Obj v_2318463_25 = PRIM_CAR(v_2318462_25);
+Obj v_2318464_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318463_25);
+if (True == v_2318464_25) {
+Obj v_2318465_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318466_25 = PRIM_CAR(v_2318465_25);
+Obj v_2318467_25 = PRIM_CDR(v_2318466_25);
+Obj v_exp1 = v_2318467_25;
+Obj v_2318468_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318469_25 = PRIM_CDR(v_2318468_25);
+Obj v_exp2 = v_2318469_25;
+Obj v_2318470_25 = primGenSym(co);
+Obj v_f = v_2318470_25;
+Obj v_2318471_25 = primGenSym(co);
+Obj v_v = v_2318471_25;
+Obj v_2318472_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2318473_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2318474_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318473_25);
+Obj v_2318475_25 = makeCons(co->gc, v_2318474_25, Nil);
+Obj v_2318476_25 = makeCons(co->gc, v_2318472_25, v_2318475_25);
+Obj v_2318477_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318476_25);
+Obj v_2318478_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp1);
+Obj v_2318479_25 = makeCons(co->gc, v_2318478_25, Nil);
+Obj v_2318480_25 = makeCons(co->gc, v_f, v_2318479_25);
+Obj v_2318481_25 = makeCons(co->gc, v_2318480_25, Nil);
+Obj v_2318482_25 = makeCons(co->gc, v_2318477_25, v_2318481_25);
+Obj v_2318483_25 = makeCons(co->gc, v_f, v_2318482_25);
+Obj v_2318484_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318483_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318080_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318484_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317439_25);
+coraCall0(co, v_2317843_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317439_25);
+coraCall0(co, v_2317843_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317439_25);
+coraCall0(co, v_2317843_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317439_25);
+coraCall0(co, v_2317843_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317439_25);
+coraCall0(co, v_2317843_25);
 return;
 }
 }
@@ -8096,42 +8096,42 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317440_25 = makeNative(co->gc, 2, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318042_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318042_25) {
-Obj v_2318043_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318044_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318043_25);
-if (True == v_2318044_25) {
-Obj v_2318045_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318045_25;
+Obj v_2317844_25 = makeNative(co->gc, 2, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318446_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318446_25) {
+Obj v_2318447_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318448_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318447_25);
+if (True == v_2318448_25) {
+Obj v_2318449_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318449_25;
 R[1] = v_args;
 saveCont(co, clofun24, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317440_25);
+coraCall0(co, v_2317844_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317440_25);
+coraCall0(co, v_2317844_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318047_25= co->res;
-Obj v_2318048_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318047_25);
-coraReturn(co, v_2318048_25);
+Obj v_2318451_25= co->res;
+Obj v_2318452_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318451_25);
+coraReturn(co, v_2318452_25);
 return;
 }
 case 2:
 {
-Obj v_2318046_25= co->res;
+Obj v_2318450_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318046_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318450_25, v_args);
 return;
 }
 }
@@ -8141,76 +8141,76 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317441_25 = makeNative(co->gc, 4, clofun22, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318020_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318020_25) {
-Obj v_2318021_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318022_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318021_25);
-if (True == v_2318022_25) {
-Obj v_2318023_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318024_25 = PRIM_ISCONS(v_2318023_25);
-if (True == v_2318024_25) {
-Obj v_2318025_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318026_25 = PRIM_CAR(v_2318025_25);
-Obj v_x = v_2318026_25;
-Obj v_2318027_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318028_25 = PRIM_CDR(v_2318027_25);
-Obj v_2318029_25 = PRIM_ISCONS(v_2318028_25);
-if (True == v_2318029_25) {
-Obj v_2318030_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318031_25 = PRIM_CDR(v_2318030_25);
-Obj v_2318032_25 = PRIM_CAR(v_2318031_25);
-Obj v_y = v_2318032_25;
-Obj v_2318033_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318034_25 = PRIM_CDR(v_2318033_25);
-Obj v_2318035_25 = PRIM_CDR(v_2318034_25);
-Obj v_2318036_25 = PRIM_EQ(Nil, v_2318035_25);
-if (True == v_2318036_25) {
+Obj v_2317845_25 = makeNative(co->gc, 4, clofun22, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318424_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318424_25) {
+Obj v_2318425_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318426_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318425_25);
+if (True == v_2318426_25) {
+Obj v_2318427_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318428_25 = PRIM_ISCONS(v_2318427_25);
+if (True == v_2318428_25) {
+Obj v_2318429_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318430_25 = PRIM_CAR(v_2318429_25);
+Obj v_x = v_2318430_25;
+Obj v_2318431_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318432_25 = PRIM_CDR(v_2318431_25);
+Obj v_2318433_25 = PRIM_ISCONS(v_2318432_25);
+if (True == v_2318433_25) {
+Obj v_2318434_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318435_25 = PRIM_CDR(v_2318434_25);
+Obj v_2318436_25 = PRIM_CAR(v_2318435_25);
+Obj v_y = v_2318436_25;
+Obj v_2318437_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318438_25 = PRIM_CDR(v_2318437_25);
+Obj v_2318439_25 = PRIM_CDR(v_2318438_25);
+Obj v_2318440_25 = PRIM_EQ(Nil, v_2318439_25);
+if (True == v_2318440_25) {
 R[1] = v_y;
 saveCont(co, clofun23, 2, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317441_25);
+coraCall0(co, v_2317845_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317441_25);
+coraCall0(co, v_2317845_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317441_25);
+coraCall0(co, v_2317845_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317441_25);
+coraCall0(co, v_2317845_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317441_25);
+coraCall0(co, v_2317845_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318038_25= co->res;
-Obj v_2318037_25 = R[1];
-Obj v_2318039_25 = makeCons(co->gc, v_2318038_25, Nil);
-Obj v_2318040_25 = makeCons(co->gc, v_2318037_25, v_2318039_25);
-Obj v_2318041_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318040_25);
-coraReturn(co, v_2318041_25);
+Obj v_2318442_25= co->res;
+Obj v_2318441_25 = R[1];
+Obj v_2318443_25 = makeCons(co->gc, v_2318442_25, Nil);
+Obj v_2318444_25 = makeCons(co->gc, v_2318441_25, v_2318443_25);
+Obj v_2318445_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318444_25);
+coraReturn(co, v_2318445_25);
 return;
 }
 case 2:
 {
-Obj v_2318037_25= co->res;
+Obj v_2318441_25= co->res;
 Obj v_y = R[1];
-R[1] = v_2318037_25;
+R[1] = v_2318441_25;
 saveCont(co, clofun23, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_y);
 return;
@@ -8222,42 +8222,42 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317442_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2317985_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317985_25) {
-Obj v_2317986_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317987_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2317986_25);
-if (True == v_2317987_25) {
-Obj v_2317988_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317989_25 = PRIM_ISCONS(v_2317988_25);
-if (True == v_2317989_25) {
-Obj v_2317990_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317991_25 = PRIM_CAR(v_2317990_25);
-Obj v_a = v_2317991_25;
-Obj v_2317992_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317993_25 = PRIM_CDR(v_2317992_25);
-Obj v_2317994_25 = PRIM_ISCONS(v_2317993_25);
-if (True == v_2317994_25) {
-Obj v_2317995_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317996_25 = PRIM_CDR(v_2317995_25);
-Obj v_2317997_25 = PRIM_CAR(v_2317996_25);
-Obj v_b = v_2317997_25;
-Obj v_2317998_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317999_25 = PRIM_CDR(v_2317998_25);
-Obj v_2318000_25 = PRIM_CDR(v_2317999_25);
-Obj v_2318001_25 = PRIM_ISCONS(v_2318000_25);
-if (True == v_2318001_25) {
-Obj v_2318002_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318003_25 = PRIM_CDR(v_2318002_25);
-Obj v_2318004_25 = PRIM_CDR(v_2318003_25);
-Obj v_2318005_25 = PRIM_CAR(v_2318004_25);
-Obj v_c = v_2318005_25;
-Obj v_2318006_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318007_25 = PRIM_CDR(v_2318006_25);
-Obj v_2318008_25 = PRIM_CDR(v_2318007_25);
-Obj v_2318009_25 = PRIM_CDR(v_2318008_25);
-Obj v_2318010_25 = PRIM_EQ(Nil, v_2318009_25);
-if (True == v_2318010_25) {
+Obj v_2317846_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318389_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318389_25) {
+Obj v_2318390_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318391_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318390_25);
+if (True == v_2318391_25) {
+Obj v_2318392_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318393_25 = PRIM_ISCONS(v_2318392_25);
+if (True == v_2318393_25) {
+Obj v_2318394_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318395_25 = PRIM_CAR(v_2318394_25);
+Obj v_a = v_2318395_25;
+Obj v_2318396_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318397_25 = PRIM_CDR(v_2318396_25);
+Obj v_2318398_25 = PRIM_ISCONS(v_2318397_25);
+if (True == v_2318398_25) {
+Obj v_2318399_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318400_25 = PRIM_CDR(v_2318399_25);
+Obj v_2318401_25 = PRIM_CAR(v_2318400_25);
+Obj v_b = v_2318401_25;
+Obj v_2318402_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318403_25 = PRIM_CDR(v_2318402_25);
+Obj v_2318404_25 = PRIM_CDR(v_2318403_25);
+Obj v_2318405_25 = PRIM_ISCONS(v_2318404_25);
+if (True == v_2318405_25) {
+Obj v_2318406_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318407_25 = PRIM_CDR(v_2318406_25);
+Obj v_2318408_25 = PRIM_CDR(v_2318407_25);
+Obj v_2318409_25 = PRIM_CAR(v_2318408_25);
+Obj v_c = v_2318409_25;
+Obj v_2318410_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318411_25 = PRIM_CDR(v_2318410_25);
+Obj v_2318412_25 = PRIM_CDR(v_2318411_25);
+Obj v_2318413_25 = PRIM_CDR(v_2318412_25);
+Obj v_2318414_25 = PRIM_EQ(Nil, v_2318413_25);
+if (True == v_2318414_25) {
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun22, 3, R);
@@ -8265,68 +8265,68 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317442_25);
+coraCall0(co, v_2317846_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317442_25);
+coraCall0(co, v_2317846_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317442_25);
+coraCall0(co, v_2317846_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317442_25);
+coraCall0(co, v_2317846_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317442_25);
+coraCall0(co, v_2317846_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317442_25);
+coraCall0(co, v_2317846_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318015_25= co->res;
+Obj v_2318419_25= co->res;
 Obj v_b1 = R[1];
 Obj v_a1 = R[2];
-Obj v_2318016_25 = makeCons(co->gc, v_2318015_25, Nil);
-Obj v_2318017_25 = makeCons(co->gc, v_b1, v_2318016_25);
-Obj v_2318018_25 = makeCons(co->gc, v_a1, v_2318017_25);
-Obj v_2318019_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318018_25);
-coraReturn(co, v_2318019_25);
+Obj v_2318420_25 = makeCons(co->gc, v_2318419_25, Nil);
+Obj v_2318421_25 = makeCons(co->gc, v_b1, v_2318420_25);
+Obj v_2318422_25 = makeCons(co->gc, v_a1, v_2318421_25);
+Obj v_2318423_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318422_25);
+coraReturn(co, v_2318423_25);
 return;
 }
 case 2:
 {
-Obj v_2318012_25= co->res;
+Obj v_2318416_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 Obj v_b1 = R[3];
-Obj v_a1 = v_2318012_25;
-Obj v_2318013_25 = makeCons(co->gc, v_a, v_a1);
-Obj v_2318014_25 = makeCons(co->gc, v_2318013_25, closureRef(R[0], 1));
+Obj v_a1 = v_2318416_25;
+Obj v_2318417_25 = makeCons(co->gc, v_a, v_a1);
+Obj v_2318418_25 = makeCons(co->gc, v_2318417_25, closureRef(R[0], 1));
 R[1] = v_b1;
 R[2] = v_a1;
 saveCont(co, clofun22, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318014_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318418_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 case 3:
 {
-Obj v_2318011_25= co->res;
+Obj v_2318415_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_b1 = v_2318011_25;
+Obj v_b1 = v_2318415_25;
 R[1] = v_a;
 R[2] = v_c;
 R[3] = v_b1;
@@ -8341,85 +8341,85 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317443_25 = makeNative(co->gc, 3, clofun20, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
-Obj v_2317953_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317953_25) {
-Obj v_2317954_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317955_25 = PRIM_ISCONS(v_2317954_25);
-if (True == v_2317955_25) {
-Obj v_2317956_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317957_25 = PRIM_CAR(v_2317956_25);
-Obj v_2317958_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2317957_25);
-if (True == v_2317958_25) {
-Obj v_2317959_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317960_25 = PRIM_CDR(v_2317959_25);
-Obj v_exp1 = v_2317960_25;
-Obj v_2317961_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317962_25 = PRIM_ISCONS(v_2317961_25);
-if (True == v_2317962_25) {
-Obj v_2317963_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317964_25 = PRIM_CAR(v_2317963_25);
-Obj v_2317965_25 = PRIM_ISCONS(v_2317964_25);
-if (True == v_2317965_25) {
-Obj v_2317966_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317967_25 = PRIM_CAR(v_2317966_25);
-Obj v_2317968_25 = PRIM_CAR(v_2317967_25);
-Obj v_2317969_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2317968_25);
-if (True == v_2317969_25) {
-Obj v_2317970_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317971_25 = PRIM_CAR(v_2317970_25);
-Obj v_2317972_25 = PRIM_CDR(v_2317971_25);
-Obj v_exp2 = v_2317972_25;
-Obj v_2317973_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2317974_25 = PRIM_CDR(v_2317973_25);
-Obj v_2317975_25 = PRIM_EQ(Nil, v_2317974_25);
-if (True == v_2317975_25) {
-Obj v_2317976_25 = primGenSym(co);
-Obj v_f = v_2317976_25;
-Obj v_2317977_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_exp1);
-Obj v_2317978_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp2);
-Obj v_2317979_25 = makeCons(co->gc, v_2317978_25, Nil);
-Obj v_2317980_25 = makeCons(co->gc, v_f, v_2317979_25);
-Obj v_2317981_25 = makeCons(co->gc, v_2317980_25, Nil);
-Obj v_2317982_25 = makeCons(co->gc, v_2317977_25, v_2317981_25);
-Obj v_2317983_25 = makeCons(co->gc, v_f, v_2317982_25);
-Obj v_2317984_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2317983_25);
+Obj v_2317847_25 = makeNative(co->gc, 3, clofun20, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
+Obj v_2318357_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318357_25) {
+Obj v_2318358_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318359_25 = PRIM_ISCONS(v_2318358_25);
+if (True == v_2318359_25) {
+Obj v_2318360_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318361_25 = PRIM_CAR(v_2318360_25);
+Obj v_2318362_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318361_25);
+if (True == v_2318362_25) {
+Obj v_2318363_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318364_25 = PRIM_CDR(v_2318363_25);
+Obj v_exp1 = v_2318364_25;
+Obj v_2318365_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318366_25 = PRIM_ISCONS(v_2318365_25);
+if (True == v_2318366_25) {
+Obj v_2318367_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318368_25 = PRIM_CAR(v_2318367_25);
+Obj v_2318369_25 = PRIM_ISCONS(v_2318368_25);
+if (True == v_2318369_25) {
+Obj v_2318370_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318371_25 = PRIM_CAR(v_2318370_25);
+Obj v_2318372_25 = PRIM_CAR(v_2318371_25);
+Obj v_2318373_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318372_25);
+if (True == v_2318373_25) {
+Obj v_2318374_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318375_25 = PRIM_CAR(v_2318374_25);
+Obj v_2318376_25 = PRIM_CDR(v_2318375_25);
+Obj v_exp2 = v_2318376_25;
+Obj v_2318377_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318378_25 = PRIM_CDR(v_2318377_25);
+Obj v_2318379_25 = PRIM_EQ(Nil, v_2318378_25);
+if (True == v_2318379_25) {
+Obj v_2318380_25 = primGenSym(co);
+Obj v_f = v_2318380_25;
+Obj v_2318381_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_exp1);
+Obj v_2318382_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp2);
+Obj v_2318383_25 = makeCons(co->gc, v_2318382_25, Nil);
+Obj v_2318384_25 = makeCons(co->gc, v_f, v_2318383_25);
+Obj v_2318385_25 = makeCons(co->gc, v_2318384_25, Nil);
+Obj v_2318386_25 = makeCons(co->gc, v_2318381_25, v_2318385_25);
+Obj v_2318387_25 = makeCons(co->gc, v_f, v_2318386_25);
+Obj v_2318388_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318387_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2317984_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318388_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317443_25);
+coraCall0(co, v_2317847_25);
 return;
 }
 }
@@ -8430,61 +8430,61 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317444_25 = makeNative(co->gc, 1, clofun18, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v_2317931_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317931_25) {
-Obj v_2317932_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2317932_25;
-Obj v_2317933_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2317933_25;
-Obj v_2317609_25 = makeNative(co->gc, 2, clofun19, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_op, v_args, v_2317444_25);
+Obj v_2317848_25 = makeNative(co->gc, 1, clofun18, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2318335_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318335_25) {
+Obj v_2318336_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2318336_25;
+Obj v_2318337_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318337_25;
+Obj v_2318013_25 = makeNative(co->gc, 2, clofun19, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_op, v_args, v_2317848_25);
 R[1] = v_op;
-R[2] = v_2317609_25;
+R[2] = v_2318013_25;
 saveCont(co, clofun20, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317444_25);
+coraCall0(co, v_2317848_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2317952_25= co->res;
-Obj v_2317609_25 = R[1];
-if (True == v_2317952_25) {
+Obj v_2318356_25= co->res;
+Obj v_2318013_25 = R[1];
+if (True == v_2318356_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317609_25, True);
+coraCall1(co, v_2318013_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317609_25, False);
+coraCall1(co, v_2318013_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317951_25= co->res;
-Obj v_2317609_25 = R[1];
-R[1] = v_2317609_25;
+Obj v_2318355_25= co->res;
+Obj v_2318013_25 = R[1];
+R[1] = v_2318013_25;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317951_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2318355_25);
 return;
 }
 case 3:
 {
-Obj v_2317950_25= co->res;
+Obj v_2318354_25= co->res;
 Obj v_op = R[1];
-Obj v_2317609_25 = R[2];
-if (True == v_2317950_25) {
-R[1] = v_2317609_25;
+Obj v_2318013_25 = R[2];
+if (True == v_2318354_25) {
+R[1] = v_2318013_25;
 saveCont(co, clofun20, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_op, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317609_25, False);
+coraCall1(co, v_2318013_25, False);
 return;
 }
 }
@@ -8495,8 +8495,8 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317610_25 = R[1];
-if (True == v_2317610_25) {
+Obj v_2318014_25 = R[1];
+if (True == v_2318014_25) {
 saveCont(co, clofun19, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), closureRef(R[0], 3));
 return;
@@ -8508,61 +8508,61 @@ return;
 }
 case 1:
 {
-Obj v_2317940_25= co->res;
-Obj v_2317938_25 = R[1];
-Obj v_2317941_25 = makeCons(co->gc, v_2317938_25, v_2317940_25);
-coraReturn(co, v_2317941_25);
+Obj v_2318344_25= co->res;
+Obj v_2318342_25 = R[1];
+Obj v_2318345_25 = makeCons(co->gc, v_2318342_25, v_2318344_25);
+coraReturn(co, v_2318345_25);
 return;
 }
 case 2:
 {
-Obj v_2317939_25= co->res;
-Obj v_2317938_25 = R[1];
-R[1] = v_2317938_25;
+Obj v_2318343_25= co->res;
+Obj v_2318342_25 = R[1];
+R[1] = v_2318342_25;
 saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2317939_25, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318343_25, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2317946_25= co->res;
+Obj v_2318350_25= co->res;
 Obj v_tmp = R[1];
-Obj v_2317947_25 = makeCons(co->gc, v_2317946_25, Nil);
-Obj v_2317948_25 = makeCons(co->gc, v_tmp, v_2317947_25);
-Obj v_2317949_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2317948_25);
+Obj v_2318351_25 = makeCons(co->gc, v_2318350_25, Nil);
+Obj v_2318352_25 = makeCons(co->gc, v_tmp, v_2318351_25);
+Obj v_2318353_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318352_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2317949_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2318353_25);
 return;
 }
 case 4:
 {
-Obj v_2317944_25= co->res;
-Obj v_tmp = v_2317944_25;
-Obj v_2317945_25 = makeCons(co->gc, closureRef(R[0], 3), closureRef(R[0], 4));
+Obj v_2318348_25= co->res;
+Obj v_tmp = v_2318348_25;
+Obj v_2318349_25 = makeCons(co->gc, closureRef(R[0], 3), closureRef(R[0], 4));
 R[1] = v_tmp;
 saveCont(co, clofun19, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2317945_25, v_tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2318349_25, v_tmp);
 return;
 }
 case 5:
 {
-Obj v_2317935_25= co->res;
+Obj v_2318339_25= co->res;
 Obj v_required = R[1];
-Obj v_provided = v_2317935_25;
-Obj v_2317936_25 = PRIM_EQ(v_required, v_provided);
-if (True == v_2317936_25) {
-Obj v_2317937_25 = makeCons(co->gc, closureRef(R[0], 3), Nil);
-Obj v_2317938_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2317937_25);
-R[1] = v_2317938_25;
+Obj v_provided = v_2318339_25;
+Obj v_2318340_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2318340_25) {
+Obj v_2318341_25 = makeCons(co->gc, closureRef(R[0], 3), Nil);
+Obj v_2318342_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318341_25);
+R[1] = v_2318342_25;
 saveCont(co, clofun19, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2317942_25 = PRIM_GT(v_required, v_provided);
-if (True == v_2317942_25) {
-Obj v_2317943_25 = PRIM_SUB(v_required, v_provided);
+Obj v_2318346_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2318346_25) {
+Obj v_2318347_25 = PRIM_SUB(v_required, v_provided);
 saveCont(co, clofun19, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2317943_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2318347_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8573,8 +8573,8 @@ return;
 }
 case 6:
 {
-Obj v_2317934_25= co->res;
-Obj v_required = v_2317934_25;
+Obj v_2318338_25= co->res;
+Obj v_required = v_2318338_25;
 R[1] = v_required;
 saveCont(co, clofun19, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), closureRef(R[0], 4));
@@ -8593,9 +8593,9 @@ return;
 }
 case 1:
 {
-Obj v_2317930_25= co->res;
+Obj v_2318334_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2317930_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318334_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -8605,67 +8605,67 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317426_25 = R[1];
-Obj v_2317427_25 = R[2];
-Obj v_2317904_25 = primIsSymbol(v_2317426_25);
-if (True == v_2317904_25) {
-R[1] = v_2317426_25;
+Obj v_2317830_25 = R[1];
+Obj v_2317831_25 = R[2];
+Obj v_2318308_25 = primIsSymbol(v_2317830_25);
+if (True == v_2318308_25) {
+R[1] = v_2317830_25;
 saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_2317426_25, v_2317427_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_2317830_25, v_2317831_25);
 return;
 } else {
-Obj v_2317908_25 = PRIM_ISCONS(v_2317426_25);
-if (True == v_2317908_25) {
-Obj v_2317909_25 = PRIM_CAR(v_2317426_25);
-Obj v_x = v_2317909_25;
-Obj v_2317910_25 = PRIM_CDR(v_2317426_25);
-Obj v_y = v_2317910_25;
-Obj v_2317911_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, Nil);
-Obj v_2317912_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2317911_25);
+Obj v_2318312_25 = PRIM_ISCONS(v_2317830_25);
+if (True == v_2318312_25) {
+Obj v_2318313_25 = PRIM_CAR(v_2317830_25);
+Obj v_x = v_2318313_25;
+Obj v_2318314_25 = PRIM_CDR(v_2317830_25);
+Obj v_y = v_2318314_25;
+Obj v_2318315_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, Nil);
+Obj v_2318316_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318315_25);
 R[1] = v_y;
-R[2] = v_2317427_25;
-R[3] = v_2317912_25;
+R[2] = v_2317831_25;
+R[3] = v_2318316_25;
 saveCont(co, clofun17, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, v_2317427_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, v_2317831_25);
 return;
 } else {
-Obj v_2317918_25 = makeCons(co->gc, v_2317426_25, Nil);
-Obj v_2317919_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317918_25);
-coraReturn(co, v_2317919_25);
+Obj v_2318322_25 = makeCons(co->gc, v_2317830_25, Nil);
+Obj v_2318323_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318322_25);
+coraReturn(co, v_2318323_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2317905_25= co->res;
-Obj v_2317426_25 = R[1];
-Obj v_2317906_25 = makeCons(co->gc, v_2317426_25, Nil);
-Obj v_2317907_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317906_25);
-coraReturn(co, v_2317907_25);
+Obj v_2318309_25= co->res;
+Obj v_2317830_25 = R[1];
+Obj v_2318310_25 = makeCons(co->gc, v_2317830_25, Nil);
+Obj v_2318311_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318310_25);
+coraReturn(co, v_2318311_25);
 return;
 }
 case 2:
 {
-Obj v_2317914_25= co->res;
-Obj v_2317913_25 = R[1];
-Obj v_2317912_25 = R[2];
-Obj v_2317915_25 = makeCons(co->gc, v_2317914_25, Nil);
-Obj v_2317916_25 = makeCons(co->gc, v_2317913_25, v_2317915_25);
-Obj v_2317917_25 = makeCons(co->gc, v_2317912_25, v_2317916_25);
-coraReturn(co, v_2317917_25);
+Obj v_2318318_25= co->res;
+Obj v_2318317_25 = R[1];
+Obj v_2318316_25 = R[2];
+Obj v_2318319_25 = makeCons(co->gc, v_2318318_25, Nil);
+Obj v_2318320_25 = makeCons(co->gc, v_2318317_25, v_2318319_25);
+Obj v_2318321_25 = makeCons(co->gc, v_2318316_25, v_2318320_25);
+coraReturn(co, v_2318321_25);
 return;
 }
 case 3:
 {
-Obj v_2317913_25= co->res;
+Obj v_2318317_25= co->res;
 Obj v_y = R[1];
-Obj v_2317427_25 = R[2];
-Obj v_2317912_25 = R[3];
-R[1] = v_2317913_25;
-R[2] = v_2317912_25;
+Obj v_2317831_25 = R[2];
+Obj v_2318316_25 = R[3];
+R[1] = v_2318317_25;
+R[2] = v_2318316_25;
 saveCont(co, clofun17, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_y, v_2317427_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_y, v_2317831_25);
 return;
 }
 }
@@ -8678,50 +8678,50 @@ case 0:
 Obj v_x = R[1];
 Obj v_env = R[2];
 Obj v_used = R[3];
-Obj v_2317593_25 = makeNative(co->gc, 2, clofun15, 1, 2, v_used, v_x);
+Obj v_2317997_25 = makeNative(co->gc, 2, clofun15, 1, 2, v_used, v_x);
 R[1] = v_x;
 R[2] = v_env;
-R[3] = v_2317593_25;
+R[3] = v_2317997_25;
 saveCont(co, clofun16, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_used);
 return;
 }
 case 1:
 {
-Obj v_2317901_25= co->res;
-Obj v_2317593_25 = R[1];
-Obj v_2317902_25 = primNot(v_2317901_25);
-if (True == v_2317902_25) {
+Obj v_2318305_25= co->res;
+Obj v_2317997_25 = R[1];
+Obj v_2318306_25 = primNot(v_2318305_25);
+if (True == v_2318306_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317593_25, True);
+coraCall1(co, v_2317997_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317593_25, False);
+coraCall1(co, v_2317997_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2317900_25= co->res;
-Obj v_2317593_25 = R[1];
-R[1] = v_2317593_25;
+Obj v_2318304_25= co->res;
+Obj v_2317997_25 = R[1];
+R[1] = v_2317997_25;
 saveCont(co, clofun16, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317900_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2318304_25);
 return;
 }
 case 3:
 {
-Obj v_2317899_25= co->res;
+Obj v_2318303_25= co->res;
 Obj v_x = R[1];
 Obj v_env = R[2];
-Obj v_2317593_25 = R[3];
-if (True == v_2317899_25) {
+Obj v_2317997_25 = R[3];
+if (True == v_2318303_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317593_25, True);
+coraCall1(co, v_2317997_25, True);
 return;
 } else {
-R[1] = v_2317593_25;
+R[1] = v_2317997_25;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, v_env);
 return;
@@ -8729,15 +8729,15 @@ return;
 }
 case 4:
 {
-Obj v_2317898_25= co->res;
+Obj v_2318302_25= co->res;
 Obj v_x = R[1];
 Obj v_env = R[2];
-Obj v_2317593_25 = R[3];
+Obj v_2317997_25 = R[3];
 R[1] = v_x;
 R[2] = v_env;
-R[3] = v_2317593_25;
+R[3] = v_2317997_25;
 saveCont(co, clofun16, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317898_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2318302_25);
 return;
 }
 }
@@ -8747,10 +8747,10 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317594_25 = R[1];
-if (True == v_2317594_25) {
-Obj v_2317894_25 = primGenSym(co);
-coraReturn(co, v_2317894_25);
+Obj v_2317998_25 = R[1];
+if (True == v_2317998_25) {
+Obj v_2318298_25 = primGenSym(co);
+coraReturn(co, v_2318298_25);
 return;
 } else {
 saveCont(co, clofun15, 1, R);
@@ -8760,9 +8760,9 @@ return;
 }
 case 1:
 {
-Obj v_2317895_25= co->res;
-Obj v_2317896_25 = makeCons(co->gc, closureRef(R[0], 1), v_2317895_25);
-Obj v_2317897_25 = primSet(co, closureRef(R[0], 0), v_2317896_25);
+Obj v_2318299_25= co->res;
+Obj v_2318300_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318299_25);
+Obj v_2318301_25 = primSet(co, closureRef(R[0], 0), v_2318300_25);
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), closureRef(R[0], 1));
 return;
@@ -8774,24 +8774,24 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317421_25 = R[1];
-Obj v_2317422_25 = R[2];
-Obj v_2317423_25 = R[3];
-Obj v_2317424_25 = makeNative(co->gc, 1, clofun13, 0, 3, v_2317421_25, v_2317422_25, v_2317423_25);
-Obj v_2317891_25 = PRIM_EQ(Nil, v_2317421_25);
-if (True == v_2317891_25) {
-Obj v_2317892_25 = PRIM_EQ(Nil, v_2317422_25);
-if (True == v_2317892_25) {
-coraReturn(co, v_2317423_25);
+Obj v_2317825_25 = R[1];
+Obj v_2317826_25 = R[2];
+Obj v_2317827_25 = R[3];
+Obj v_2317828_25 = makeNative(co->gc, 1, clofun13, 0, 3, v_2317825_25, v_2317826_25, v_2317827_25);
+Obj v_2318295_25 = PRIM_EQ(Nil, v_2317825_25);
+if (True == v_2318295_25) {
+Obj v_2318296_25 = PRIM_EQ(Nil, v_2317826_25);
+if (True == v_2318296_25) {
+coraReturn(co, v_2317827_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317424_25);
+coraCall0(co, v_2317828_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317424_25);
+coraCall0(co, v_2317828_25);
 return;
 }
 }
@@ -8802,32 +8802,32 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317425_25 = makeNative(co->gc, 1, clofun12, 0, 0);
-Obj v_2317883_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317883_25) {
-Obj v_2317884_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2317884_25;
-Obj v_2317885_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_xs = v_2317885_25;
-Obj v_2317886_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2317886_25) {
-Obj v_2317887_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_y = v_2317887_25;
-Obj v_2317888_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_ys = v_2317888_25;
-Obj v_2317889_25 = makeCons(co->gc, v_x, v_y);
-Obj v_2317890_25 = makeCons(co->gc, v_2317889_25, closureRef(R[0], 2));
+Obj v_2317829_25 = makeNative(co->gc, 1, clofun12, 0, 0);
+Obj v_2318287_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318287_25) {
+Obj v_2318288_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318288_25;
+Obj v_2318289_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_xs = v_2318289_25;
+Obj v_2318290_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318290_25) {
+Obj v_2318291_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_y = v_2318291_25;
+Obj v_2318292_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_ys = v_2318292_25;
+Obj v_2318293_25 = makeCons(co->gc, v_x, v_y);
+Obj v_2318294_25 = makeCons(co->gc, v_2318293_25, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 90)), v_xs, v_ys, v_2317890_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 90)), v_xs, v_ys, v_2318294_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317425_25);
+coraCall0(co, v_2317829_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317425_25);
+coraCall0(co, v_2317829_25);
 return;
 }
 }
@@ -8850,28 +8850,28 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2317870_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, Nil);
-Obj v_2317871_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2317870_25);
-Obj v_2317872_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2317871_25);
-Obj v_2317873_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2317872_25);
-Obj v_2317874_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2317873_25);
-Obj v_2317875_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2317874_25);
-Obj v_2317876_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2317875_25);
-Obj v_2317877_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2317876_25);
-Obj v_2317878_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2317877_25);
-Obj v_2317879_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2317878_25);
+Obj v_2318274_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, Nil);
+Obj v_2318275_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318274_25);
+Obj v_2318276_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318275_25);
+Obj v_2318277_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318276_25);
+Obj v_2318278_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318277_25);
+Obj v_2318279_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318278_25);
+Obj v_2318280_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318279_25);
+Obj v_2318281_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318280_25);
+Obj v_2318282_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318281_25);
+Obj v_2318283_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2318282_25);
 R[1] = v_x;
 saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317879_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2318283_25);
 return;
 }
 case 1:
 {
-Obj v_2317880_25= co->res;
+Obj v_2318284_25= co->res;
 Obj v_x = R[1];
-if (True == v_2317880_25) {
-Obj v_2317881_25 = primGenSym(co);
-coraReturn(co, v_2317881_25);
+if (True == v_2318284_25) {
+Obj v_2318285_25 = primGenSym(co);
+coraReturn(co, v_2318285_25);
 return;
 } else {
 coraReturn(co, v_x);
@@ -8885,18 +8885,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317417_25 = R[1];
-Obj v_2317418_25 = R[2];
-Obj v_2317865_25 = PRIM_EQ(MAKE_NUMBER(0), v_2317417_25);
-if (True == v_2317865_25) {
-coraReturn(co, v_2317418_25);
+Obj v_2317821_25 = R[1];
+Obj v_2317822_25 = R[2];
+Obj v_2318269_25 = PRIM_EQ(MAKE_NUMBER(0), v_2317821_25);
+if (True == v_2318269_25) {
+coraReturn(co, v_2317822_25);
 return;
 } else {
-Obj v_2317866_25 = PRIM_SUB(v_2317417_25, MAKE_NUMBER(1));
-Obj v_2317867_25 = primGenSym(co);
-Obj v_2317868_25 = makeCons(co->gc, v_2317867_25, v_2317418_25);
+Obj v_2318270_25 = PRIM_SUB(v_2317821_25, MAKE_NUMBER(1));
+Obj v_2318271_25 = primGenSym(co);
+Obj v_2318272_25 = makeCons(co->gc, v_2318271_25, v_2317822_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2317866_25, v_2317868_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2318270_25, v_2318272_25);
 return;
 }
 }
@@ -8914,9 +8914,9 @@ return;
 }
 case 1:
 {
-Obj v_2317863_25= co->res;
+Obj v_2318267_25= co->res;
 Obj v_find = R[1];
-if (True == v_2317863_25) {
+if (True == v_2318267_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8927,8 +8927,8 @@ return;
 }
 case 2:
 {
-Obj v_2317862_25= co->res;
-Obj v_find = v_2317862_25;
+Obj v_2318266_25= co->res;
+Obj v_find = v_2318266_25;
 R[1] = v_find;
 saveCont(co, clofun9, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
@@ -8948,9 +8948,9 @@ return;
 }
 case 1:
 {
-Obj v_2317860_25= co->res;
+Obj v_2318264_25= co->res;
 Obj v_find = R[1];
-if (True == v_2317860_25) {
+if (True == v_2318264_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8961,8 +8961,8 @@ return;
 }
 case 2:
 {
-Obj v_2317859_25= co->res;
-Obj v_find = v_2317859_25;
+Obj v_2318263_25= co->res;
+Obj v_find = v_2318263_25;
 R[1] = v_find;
 saveCont(co, clofun8, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
@@ -8982,16 +8982,16 @@ return;
 }
 case 1:
 {
-Obj v_2317856_25= co->res;
-Obj v_2317857_25 = primNot(v_2317856_25);
-coraReturn(co, v_2317857_25);
+Obj v_2318260_25= co->res;
+Obj v_2318261_25 = primNot(v_2318260_25);
+coraReturn(co, v_2318261_25);
 return;
 }
 case 2:
 {
-Obj v_2317855_25= co->res;
+Obj v_2318259_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317855_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2318259_25);
 return;
 }
 }
@@ -9001,23 +9001,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317413_25 = R[1];
-Obj v_2317414_25 = R[2];
-Obj v_2317779_25 = PRIM_EQ(Nil, v_2317414_25);
-if (True == v_2317779_25) {
+Obj v_2317817_25 = R[1];
+Obj v_2317818_25 = R[2];
+Obj v_2318183_25 = PRIM_EQ(Nil, v_2317818_25);
+if (True == v_2318183_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2317780_25 = PRIM_ISCONS(v_2317414_25);
-if (True == v_2317780_25) {
-Obj v_2317781_25 = PRIM_CAR(v_2317414_25);
-Obj v_hd = v_2317781_25;
-Obj v_2317782_25 = PRIM_CDR(v_2317414_25);
-Obj v_tl = v_2317782_25;
-R[1] = v_2317413_25;
+Obj v_2318184_25 = PRIM_ISCONS(v_2317818_25);
+if (True == v_2318184_25) {
+Obj v_2318185_25 = PRIM_CAR(v_2317818_25);
+Obj v_hd = v_2318185_25;
+Obj v_2318186_25 = PRIM_CDR(v_2317818_25);
+Obj v_tl = v_2318186_25;
+R[1] = v_2317817_25;
 R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317413_25, v_hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317817_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -9028,13 +9028,13 @@ return;
 }
 case 1:
 {
-Obj v_2317783_25= co->res;
-Obj v_2317413_25 = R[1];
+Obj v_2318187_25= co->res;
+Obj v_2317817_25 = R[1];
 Obj v_tl = R[2];
-Obj v_2317784_25 = PRIM_LT(v_2317783_25, MAKE_NUMBER(0));
-if (True == v_2317784_25) {
+Obj v_2318188_25 = PRIM_LT(v_2318187_25, MAKE_NUMBER(0));
+if (True == v_2318188_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_2317413_25, v_tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_2317817_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -9061,32 +9061,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317407_25 = R[1];
-Obj v_2317408_25 = R[2];
-Obj v_2317409_25 = R[3];
-Obj v_2317768_25 = PRIM_EQ(Nil, v_2317409_25);
-if (True == v_2317768_25) {
+Obj v_2317811_25 = R[1];
+Obj v_2317812_25 = R[2];
+Obj v_2317813_25 = R[3];
+Obj v_2318172_25 = PRIM_EQ(Nil, v_2317813_25);
+if (True == v_2318172_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2317411_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2317409_25, v_2317407_25, v_2317408_25);
-Obj v_2317773_25 = PRIM_ISCONS(v_2317409_25);
-if (True == v_2317773_25) {
-Obj v_2317774_25 = PRIM_CAR(v_2317409_25);
-Obj v_a = v_2317774_25;
-Obj v_2317775_25 = PRIM_CDR(v_2317409_25);
-Obj v_2317776_25 = PRIM_EQ(v_2317408_25, v_a);
-if (True == v_2317776_25) {
-coraReturn(co, v_2317407_25);
+Obj v_2317815_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2317813_25, v_2317811_25, v_2317812_25);
+Obj v_2318177_25 = PRIM_ISCONS(v_2317813_25);
+if (True == v_2318177_25) {
+Obj v_2318178_25 = PRIM_CAR(v_2317813_25);
+Obj v_a = v_2318178_25;
+Obj v_2318179_25 = PRIM_CDR(v_2317813_25);
+Obj v_2318180_25 = PRIM_EQ(v_2317812_25, v_a);
+if (True == v_2318180_25) {
+coraReturn(co, v_2317811_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317411_25);
+coraCall0(co, v_2317815_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317411_25);
+coraCall0(co, v_2317815_25);
 return;
 }
 }
@@ -9098,14 +9098,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317769_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317769_25) {
-Obj v_2317770_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317771_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_b = v_2317771_25;
-Obj v_2317772_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2318173_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318173_25) {
+Obj v_2318174_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318175_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2318175_25;
+Obj v_2318176_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 130)), v_2317772_25, closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 130)), v_2318176_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
@@ -9120,24 +9120,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317402_25 = R[1];
-Obj v_2317403_25 = R[2];
-Obj v_2317404_25 = R[3];
-Obj v_2317762_25 = PRIM_EQ(Nil, v_2317404_25);
-if (True == v_2317762_25) {
-coraReturn(co, v_2317403_25);
+Obj v_2317806_25 = R[1];
+Obj v_2317807_25 = R[2];
+Obj v_2317808_25 = R[3];
+Obj v_2318166_25 = PRIM_EQ(Nil, v_2317808_25);
+if (True == v_2318166_25) {
+coraReturn(co, v_2317807_25);
 return;
 } else {
-Obj v_2317763_25 = PRIM_ISCONS(v_2317404_25);
-if (True == v_2317763_25) {
-Obj v_2317764_25 = PRIM_CAR(v_2317404_25);
-Obj v_x = v_2317764_25;
-Obj v_2317765_25 = PRIM_CDR(v_2317404_25);
-Obj v_y = v_2317765_25;
-R[1] = v_2317402_25;
+Obj v_2318167_25 = PRIM_ISCONS(v_2317808_25);
+if (True == v_2318167_25) {
+Obj v_2318168_25 = PRIM_CAR(v_2317808_25);
+Obj v_x = v_2318168_25;
+Obj v_2318169_25 = PRIM_CDR(v_2317808_25);
+Obj v_y = v_2318169_25;
+R[1] = v_2317806_25;
 R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v_2317402_25, v_2317403_25, v_x);
+coraCall2(co, v_2317806_25, v_2317807_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
@@ -9148,11 +9148,11 @@ return;
 }
 case 1:
 {
-Obj v_2317766_25= co->res;
-Obj v_2317402_25 = R[1];
+Obj v_2318170_25= co->res;
+Obj v_2317806_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2317402_25, v_2317766_25, v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2317806_25, v_2318170_25, v_y);
 return;
 }
 }
@@ -9162,44 +9162,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317397_25 = R[1];
-Obj v_2317398_25 = R[2];
-Obj v_2317747_25 = PRIM_EQ(Nil, v_2317398_25);
-if (True == v_2317747_25) {
+Obj v_2317801_25 = R[1];
+Obj v_2317802_25 = R[2];
+Obj v_2318151_25 = PRIM_EQ(Nil, v_2317802_25);
+if (True == v_2318151_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317400_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2317398_25, v_2317397_25);
-Obj v_2317751_25 = PRIM_ISCONS(v_2317398_25);
-if (True == v_2317751_25) {
-Obj v_2317752_25 = PRIM_CAR(v_2317398_25);
-Obj v_2317753_25 = PRIM_ISCONS(v_2317752_25);
-if (True == v_2317753_25) {
-Obj v_2317754_25 = PRIM_CAR(v_2317398_25);
-Obj v_2317755_25 = PRIM_CAR(v_2317754_25);
-Obj v_x = v_2317755_25;
-Obj v_2317756_25 = PRIM_CAR(v_2317398_25);
-Obj v_2317757_25 = PRIM_CDR(v_2317756_25);
-Obj v_y = v_2317757_25;
-Obj v_2317758_25 = PRIM_CDR(v_2317398_25);
-Obj v_2317759_25 = PRIM_EQ(v_2317397_25, v_x);
-if (True == v_2317759_25) {
-Obj v_2317760_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2317760_25);
+Obj v_2317804_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2317802_25, v_2317801_25);
+Obj v_2318155_25 = PRIM_ISCONS(v_2317802_25);
+if (True == v_2318155_25) {
+Obj v_2318156_25 = PRIM_CAR(v_2317802_25);
+Obj v_2318157_25 = PRIM_ISCONS(v_2318156_25);
+if (True == v_2318157_25) {
+Obj v_2318158_25 = PRIM_CAR(v_2317802_25);
+Obj v_2318159_25 = PRIM_CAR(v_2318158_25);
+Obj v_x = v_2318159_25;
+Obj v_2318160_25 = PRIM_CAR(v_2317802_25);
+Obj v_2318161_25 = PRIM_CDR(v_2318160_25);
+Obj v_y = v_2318161_25;
+Obj v_2318162_25 = PRIM_CDR(v_2317802_25);
+Obj v_2318163_25 = PRIM_EQ(v_2317801_25, v_x);
+if (True == v_2318163_25) {
+Obj v_2318164_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2318164_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317400_25);
+coraCall0(co, v_2317804_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317400_25);
+coraCall0(co, v_2317804_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317400_25);
+coraCall0(co, v_2317804_25);
 return;
 }
 }
@@ -9211,11 +9211,11 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317748_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2317748_25) {
-Obj v_2317749_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2317750_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2317750_25;
+Obj v_2318152_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318152_25) {
+Obj v_2318153_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318154_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318154_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 1), v_y);
 return;
-- 
2.43.0


From eeb01ef6f10259286ba6b34826a3ac873baec0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 10/53] fix: load keeps the path it was given while the
 compiler runs

The path string was collected during the compilation, so an imported .cora file
was never cached beside its source. Only files below CORAPATH are cached there.
---
 src/runtime.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 8b82f4e..61a6be4 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -414,7 +414,9 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	// (load "file-path.cora")
 	Obj filePath = R[1];
 	Obj arg1 = filePath;
-	str filePathStr = stringStr(filePath);
+	// The compiler runs before the path is used again and may collect the string.
+	strBuf filePathBuf = strDup(stringStr(filePath));
+	str filePathStr = toStr(filePathBuf);
 	const int BUFSIZE = 512;
 	char buf[BUFSIZE];
 	int cfileidx = unique;
@@ -431,9 +433,11 @@ builtinLoad(Cora *co, int label, Obj *R) {
 
 	strBuf tmp;
 	strBuf path = getCoraPath();
-	if (strCmp(filePathStr, toStr(path)) > 0) {
+	str coraPath = toStr(path);
+	if (strLen(filePathStr) > strLen(coraPath) &&
+		strCmp(strSub(filePathStr, 0, strLen(coraPath)), coraPath) == 0) {
 		// The cora file is in $CORAPATH, it might be a import package
-		tmp = strNew(filePathStr.len - 5 + 3);
+		tmp = strNew(filePathStr.len);
 		tmp = strCat(tmp, strSub(filePathStr, 0, strLen(filePathStr) - 5));
 		tmp = strCat(tmp, S(".so"));
 	} else {
@@ -446,8 +450,10 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		"%s -ldl -lm -L%s -lcora",
 		coraSrcDir, cfileidx, toCStr(tmp), coraSrcDir);
 	strFree(path);
+	strFree(filePathBuf);
 	int exitCode = system(buf);
 	if (exitCode != 0) {
+		strFree(tmp);
 		coraReturn(co, makeNumber(exitCode));
 		return;
 	}
-- 
2.43.0


From 731735b1b82a0570f1f2157424295c4bbad65476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 11/53] fix: the reader handles literals of any length, blanks
 in lists and truncated input

Numbers went through atoi, strings and symbols overflowed a 512 byte buffer,
( ) ended the process, a list cut off by the end of the input recursed for ever,
and symbols above 255 bytes could be read but not printed.
---
 src/reader.c  | 110 +++++++++++++++++++++++++-------------------------
 src/runtime.c |  14 ++++++-
 2 files changed, 67 insertions(+), 57 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 38a7c35..eaa4e77 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -47,7 +47,7 @@ eatWhitespace(FILE *in) {
 	}
 }
 
-static char
+static int
 peekFirstChar(FILE *in) {
 	eatWhitespace(in);
 	return getc(in);
@@ -55,18 +55,20 @@ peekFirstChar(FILE *in) {
 
 static Obj
 readCons(GC *gc, FILE *in, int *errCode) {
-	int c = getc(in);
+	int c = peekFirstChar(in);
 	if (c == ')') {
 		// read the empty list
 		return Nil;
 	}
+	if (c == EOF) {
+		// the list is not terminated
+		*errCode = 1;
+		return Nil;
+	}
 
 	ungetc(c, in);
 	Obj hd = sexpRead(gc, in, errCode);
 
-	c = peekFirstChar(in);
-	ungetc(c, in);
-
 	/* read list */
 	Obj tl = readCons(gc, in, errCode);
 	return makeCons(gc, hd, tl);
@@ -86,7 +88,7 @@ static Obj
 readListMacro(GC *gc, FILE *in, int *errCode) {
 	Obj hd = intern("list");
 	Obj ret = Nil;
-	char b = peekFirstChar(in);
+	int b = peekFirstChar(in);
 	while (b != EOF && b != ']') {
 		if (b == '.') {
 			hd = intern("list-rest");
@@ -97,33 +99,42 @@ readListMacro(GC *gc, FILE *in, int *errCode) {
 		}
 		b = peekFirstChar(in);
 	}
+	if (b == EOF) {
+		*errCode = 1;
+	}
 	return makeCons(gc, hd, reverse(gc, ret));
 }
 
+// Integers are exact up to 2^53, a literal above that saturates.
+static int64_t
+parseDigits(const char *p) {
+	const int64_t max = INT64_C(1) << 53;
+	int64_t n = 0;
+	for (; *p != 0 && n < max; p++) {
+		n = n * 10 + (*p - '0');
+	}
+	return n < max ? n : max;
+}
+
 static Obj
 readNumber(FILE *in) {
-	char buf[30];
-	memset(buf, 0, 30);
-	int i = 0;
-	char c = getc(in);
+	strBuf buf = strNew(32);
+	int c = getc(in);
 	while (c != EOF && isdigit(c)) {
-		buf[i] = c;
+		buf = strAppend(buf, c);
 		c = getc(in);
-		i++;
 	}
-	buf[i] = '\0';
 	if (c != EOF) {
 		ungetc(c, in);
 	}
-	Obj ret = makeNumber(atoi(buf));
+	Obj ret = makeNumber(parseDigits(toCStr(buf)));
+	strFree(buf);
 	return ret;
 }
 
 Obj
 sexpRead(GC *gc, FILE *in, int *errCode) {
 	int c;
-	int i;
-	char buffer[512];
 
 	eatWhitespace(in);
 	c = getc(in);
@@ -158,7 +169,7 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 	}
 	// read a string
 	if (c == '"') {
-		i = 0;
+		strBuf buffer = strNew(32);
 		while ((c = getc(in)) != '"') {
 			if (c == '\\') {
 				c = getc(in);
@@ -171,53 +182,38 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 					"non-terminated string literal\n");
 				exit(1);
 			}
-			/* subtract 1 to save space for '\0' terminator */
-			if (i < 1000 - 1) {
-				buffer[i++] = c;
-			} else {
-				fprintf(stderr,
-					"string too long. Maximum length is %d\n",
-					1000);
-				exit(1);
-			}
+			buffer = strAppend(buffer, c);
 		}
-		buffer[i] = '\0';
-		return makeString(gc, buffer, i);
+		str content = toStr(buffer);
+		Obj ret = makeString(gc, content.str, content.len);
+		strFree(buffer);
+		return ret;
 	}
 	// read a symbol
 	if (isIdentifierChar(c)) {
-		/* int firstDot = -1; */
-		i = 0;
+		strBuf buffer = strNew(32);
 		while (isIdentifierChar(c)) {
-			buffer[i] = c;
-			if (c == '.') {
-				/* firstDot = i; */
-			}
-			i++;
+			buffer = strAppend(buffer, c);
 			c = getc(in);
 		}
-		/* if (c != EOF) { */
-		buffer[i] = '\0';
 		ungetc(c, in);
-		if (strcmp(buffer, "true") == 0) {
-			return True;
-		}
-		if (strcmp(buffer, "false") == 0) {
-			return False;
+		char *name = toCStr(buffer);
+		Obj ret;
+		bool isNumeral = name[0] == '-' && name[1] != '\0';
+		for (char *p = name + 1; isNumeral && *p != '\0'; p++) {
+			isNumeral = isdigit((unsigned char)*p);
 		}
-		if (buffer[0] == '-' && i > 1) {
-			bool allDigit = true;
-			for (int p = 1; p < i; p++) {
-				if (!isdigit((int)buffer[p])) {
-					allDigit = false;
-				}
-			}
-			if (allDigit) {
-				Obj num = makeNumber(atoi(buffer));
-				return num;
-			}
+		if (strcmp(name, "true") == 0) {
+			ret = True;
+		} else if (strcmp(name, "false") == 0) {
+			ret = False;
+		} else if (isNumeral) {
+			ret = makeNumber(-parseDigits(name + 1));
+		} else {
+			ret = intern(name);
 		}
-		return intern(buffer);
+		strFree(buffer);
+		return ret;
 	}
 
 	if (c == EOF) {
@@ -260,6 +256,10 @@ printObj(FILE *to, Obj o) {
 	} else if (iscons(o)) {
 		printCons(to, o, true);
 	} else if (issymbol(o)) {
+		if (tag(o) == TAG_SYMBOL) {
+			fprintf(to, "%s", toCStr(ptr(o)));
+			return;
+		}
 		char dest[256];
 		symbolStr(o, dest, 256);
 		fprintf(to, "%s", dest);
@@ -299,5 +299,5 @@ printObj(FILE *to, Obj o) {
 
 void
 sexpWrite(FILE *out, Obj o) {
-	printObj(stdout, o);
+	printObj(out, o);
 }
diff --git a/src/runtime.c b/src/runtime.c
index 61a6be4..24514a1 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -240,6 +240,11 @@ primIsString(Obj x) {
 void
 symbolToString(Cora *co, int lable, Obj *R) {
 	Obj sym = R[1];
+	if (tag(sym) == TAG_SYMBOL) {
+		str name = toStr(ptr(sym));
+		coraReturn(co, makeString(co->gc, name.str, name.len));
+		return;
+	}
 	char dest[256];
 	symbolStr(sym, dest, 256);
 	Obj val = makeCString(co->gc, dest);
@@ -656,8 +661,13 @@ static void
 builtinSymbolCooked(Cora *co, int label, Obj *R) {
 	Obj sym = R[1];
 	char dst[256];
-	symbolStr(sym, dst, 256);
-	for (char *s = dst; *s != 0; s++) {
+	char *s = dst;
+	if (tag(sym) == TAG_SYMBOL) {
+		s = toCStr(ptr(sym));
+	} else {
+		symbolStr(sym, dst, 256);
+	}
+	for (; *s != 0; s++) {
 		if (*s == '#') {
 			coraReturn(co, True);
 			return;
-- 
2.43.0


From 62dac87ad561207301814419d71cba24fe6f5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 12/53] fix: hash tables accept keys with a negative hash and
 delete the right key

assoc-rm removed the first entry of the bucket whatever its key was, and a
negative remainder was used as a bucket index.
---
 lib/hash-h.c  | 11 +++++++----
 lib/hash.cora |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/hash-h.c b/lib/hash-h.c
index 2ec337f..da974b2 100644
--- a/lib/hash-h.c
+++ b/lib/hash-h.c
@@ -17,9 +17,7 @@ hashToNumberHelp(Obj key) {
 
 	switch (tag(key)) {
 	case TAG_SYMBOL: {
-		char str[256];
-		symbolStr(key, str, 256);
-		int sum = hashForString(str);
+		int sum = hashForString(toCStr(ptr(key)));
 		return makeNumber(sum);
 	}
 
@@ -65,7 +63,12 @@ void
 builtinMod(struct Cora *co, int label, Obj *R) {
 	Obj x = R[1];
 	Obj y = R[2];
-	Obj ret = makeNumber(fixnum(x) % fixnum(y));
+	// The result has the sign of y, as an index it must not be negative.
+	int64_t m = fixnum(x) % fixnum(y);
+	if (m != 0 && (m < 0) != (fixnum(y) < 0)) {
+		m += fixnum(y);
+	}
+	Obj ret = makeNumber(m);
 	coraReturn(co, ret);
 }
 
diff --git a/lib/hash.cora b/lib/hash.cora
index c8277b3..2437b3a 100644
--- a/lib/hash.cora
+++ b/lib/hash.cora
@@ -16,8 +16,8 @@
 
   (func assoc-rm
 	key [] => []
-	key [[key . _] . more] => more
-	key [x . more] => [x . (assoc-rm key x more)])
+	key [[k1 . _] . more] => more where (= key k1)
+	key [x . more] => [x . (assoc-rm key more)])
 
   (defun hash-make (n)
     (let h (vector (+ 3 n))
-- 
2.43.0


From 3557062b10652c5c3f9035539e59e0a992870758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 13/53] fix: string-split keeps leading and adjacent
 separators, string-append joins empty strings, bytes are 0..255

---
 lib/string.c  | 8 ++++----
 src/runtime.c | 2 +-
 src/str.c     | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 8b5b551..b4aebc6 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -145,8 +145,8 @@ stringSplit(struct Cora *co, int label, Obj *R) {
 	Obj res = Nil;
 	str s = from;
 	while (1) {
-		int pos = strStr(s, split);
-		if (pos > 0) {
+		int pos = strLen(split) > 0 ? strStr(s, split) : -1;
+		if (pos >= 0) {
 			str find = strSub(s, 0, pos);
 			res = makeCons(co->gc, makeString(co->gc, find.str, strLen(find)), res);
 			s = strSub(s, pos + strLen(split), strLen(s));
@@ -177,7 +177,7 @@ bytesRef(struct Cora *co, int label, Obj *R) {
 	Obj str = R[1];
 	Obj idx = fixnum(R[2]);
 	assert(idx < bytesLen(str));
-	Obj ret = makeNumber(bytesData(str)[idx]);
+	Obj ret = makeNumber((unsigned char)bytesData(str)[idx]);
 	coraReturn(co, ret);
 }
 
@@ -188,7 +188,7 @@ stringToList(struct Cora *co, int label, Obj *R) {
 	int len = bytesLen(str);
 	Obj res = Nil;
 	for (int i = 0; i < len; i++) {
-		res = makeCons(co->gc, makeNumber(bs[i]), res);
+		res = makeCons(co->gc, makeNumber((unsigned char)bs[i]), res);
 	}
 	coraReturn(co, reverse(co->gc, res));
 }
diff --git a/src/runtime.c b/src/runtime.c
index 24514a1..4e8c34d 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -648,7 +648,7 @@ builtinStringAppend(Cora *co, int label, Obj *R) {
 	Obj str2 = R[2];
 	str x = stringStr(str1);
 	str y = stringStr(str2);
-	strBuf tmp = strNew(x.len + y.len);
+	strBuf tmp = strNew(x.len + y.len + 1);
 	tmp = strCpy(tmp, x);
 	tmp = strCat(tmp, y);
 	str s = toStr(tmp);
diff --git a/src/str.c b/src/str.c
index 429789b..304cc92 100644
--- a/src/str.c
+++ b/src/str.c
@@ -85,10 +85,12 @@ strRchr(str s, char c) {
 int
 strCmp(str s1, str s2) {
 	for (int i = 0; i < s1.len && i < s2.len; i++) {
-		if (s1.str[i] > s2.str[i]) {
+		unsigned char c1 = s1.str[i];
+		unsigned char c2 = s2.str[i];
+		if (c1 > c2) {
 			return 1;
 		}
-		if (s1.str[i] < s2.str[i]) {
+		if (c1 < c2) {
 			return -1;
 		}
 	}
-- 
2.43.0


From 186e75399b6f9e94d30ac09edd3dc047f08cf715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 14/53] fix: an object that fills a whole large object arena
 can be allocated

---
 src/gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc.c b/src/gc.c
index 0a4c03e..db39429 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -418,7 +418,7 @@ heapArenaAllocLarge(struct heapArena *ha, GC *gc, int slots) {
 		// printf("allocate from %p, curr=%d, slots=%d\n", ha, ha->curr, slots);
 		// The simple case.
 		if (ha->curr == ha->idx) {
-			if (ha->curr + slots >= BLOCKS_PER_HEAP) {
+			if (ha->curr + slots > BLOCKS_PER_HEAP) {
 				return NULL;
 			}
 			// printf("allocate from uninitialized ==%d\n", ha->curr);
-- 
2.43.0


From c28aba6b1e964b7ddd25d5408db34329ac8df7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 15/53] fix: pclose and copy return numbers, write-bytes ends
 when the write fails

---
 lib/io.c | 7 ++++---
 lib/os.c | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index c10e6c1..7a9dc1b 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -110,7 +110,7 @@ ioCopy(struct Cora *co, int label, Obj *R) {
 			break;
 		}
 	}
-	coraReturn(co, feof(from));
+	coraReturn(co, makeNumber(feof(from) ? 1 : 0));
 }
 
 static void
@@ -122,8 +122,9 @@ ioWrite(struct Cora *co, int label, Obj *R) {
 	size_t off = 0;
 	while (off < len) {
 		size_t sz = fwrite(data + off, 1, len - off, to);
-		if (sz < 0) {
-			coraReturn(co, makeNumber(sz));
+		if (sz == 0) {
+			// the write failed, report how far it got
+			coraReturn(co, makeNumber(off));
 			return;
 		}
 		off += sz;
diff --git a/lib/os.c b/lib/os.c
index 84d0ef7..3e2f69a 100644
--- a/lib/os.c
+++ b/lib/os.c
@@ -45,7 +45,7 @@ pcloseFn(struct Cora *co, int label, Obj *R) {
 	Obj arg = R[1];
 	FILE *f = mustCObj(arg);
 	int res = pclose(f);
-	coraReturn(co, res);
+	coraReturn(co, makeNumber(res));
 }
 
 static struct registerModule osModule = {
-- 
2.43.0


From 32b82d55752d8e785074a3181806c5c923242de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 16/53] fix: a new VM starts with empty globals, packages and
 result

---
 src/runtime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 4e8c34d..82351bc 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -54,7 +54,8 @@ coraReturnSlowPath(Cora *co) {
 
 static Cora *
 coraNew() {
-	Cora *co = malloc(sizeof(Cora));
+	// Everything is empty, globals, packages and the res register included.
+	Cora *co = calloc(1, sizeof(Cora));
 	vecInit(&co->callstack, 64);
 	segmentStackInit(&co->stk);
 	co->ctx.bp = co->stk.begin;
-- 
2.43.0


From 644d002f8347b5fbee931d7529732cd9f92a957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 17/53] fix: define the functions cora.h declares

---
 src/cora.h   |  2 +-
 src/export.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/cora.h b/src/cora.h
index 491fbc9..e4bca44 100644
--- a/src/cora.h
+++ b/src/cora.h
@@ -49,7 +49,7 @@ extern "C" {
 	Obj coraMakeVector(Cora *co, int size, int cap);
 	Obj coraVectorRef(Obj vec, int idx);
 	Obj coraVectorSet(Cora *co, Obj vec, int idx, Obj val);
-	Obj coraVectorAppend(Obj vec, Obj val);
+	Obj coraVectorAppend(Cora *co, Obj vec, Obj val);
 	bool coraIsVector(Obj o);
 	int coraVectorLength(Obj vec);
 
diff --git a/src/export.c b/src/export.c
index fdea94a..9dec928 100644
--- a/src/export.c
+++ b/src/export.c
@@ -89,6 +89,51 @@ coraReverse(Cora *co, Obj o) {
 	return reverse(co->gc, o);
 }
 
+Obj
+coraVectorAppend(Cora *co, Obj vec, Obj val) {
+	return vectorAppend(co->gc, vec, val);
+}
+
+bool
+coraIsVector(Obj o) {
+	return isvector(o);
+}
+
+int
+coraVectorLength(Obj vec) {
+	return vectorLength(vec);
+}
+
+Obj
+coraCar(Obj o) {
+	return car(o);
+}
+
+Obj
+coraCdr(Obj o) {
+	return cdr(o);
+}
+
+Obj
+coraMakeBytes(Cora *co, int len) {
+	return makeBytes(co->gc, len);
+}
+
+int
+coraBytesLen(Obj o) {
+	return bytesLen(o);
+}
+
+void *
+coraMustCObj(Obj o) {
+	return mustCObj(o);
+}
+
+bool
+coraIsNumber(Obj o) {
+	return isNumber(o);
+}
+
 int
 coraFixnum(Obj o) {
 	return fixnum(o);
-- 
2.43.0


From 9d83137614d172a608aaa627a3d3f7a52ff1359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 18/53] verif: test hooks in the collector, compiled only with
 CORA_VERIF_HOOKS

---
 src/gc.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index db39429..2aab541 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -374,9 +374,26 @@ getBlock(GC *gc, int slot) {
 	return block;
 }
 
+#ifdef CORA_VERIF_HOOKS
+// Test hooks: start a collection after this many bytes (0: the usual rule),
+// mark this many objects per allocation (0: the usual number), and overwrite
+// the dead objects after every collection.
+size_t coraVerifGCLimit = 0;
+int coraVerifGCSteps = 0;
+int coraVerifGCPoison = 0;
+size_t coraVerifGCCount = 0;
+#endif
+
 // Helper function to check if GC should be triggered
 bool
 gcTriggerCheck(GC *gc) {
+#ifdef CORA_VERIF_HOOKS
+	if (coraVerifGCLimit != 0 && gc->stats.allocated > coraVerifGCLimit &&
+		gc->state == gcStateNone) {
+		gc->state = gcStateMark;
+		return true;
+	}
+#endif
 	if (gc->stats.allocated > gc->stats.nextSize && gc->state == gcStateNone) {
 		gc->state = gcStateMark;
 		return true;
@@ -824,6 +841,31 @@ gcMarkRoot(GC *gc, gcMarkRootCallback callback, void *data) {
 /* 	} */
 /* } */
 
+#ifdef CORA_VERIF_HOOKS
+static void
+gcVerifPoison(GC *gc) {
+	for (struct heapArena *h = gc->heap; h != NULL; h = h->next) {
+		if (h->forLargeObjects) {
+			continue;
+		}
+		for (int i = 0; i < h->idx; i++) {
+			struct Block *b = &h->blocks[i];
+			if (b->sizeClass == 0) {
+				continue;
+			}
+			for (int j = 0; j + b->sizeClass <= MEM_BLOCK_SIZE; j += b->sizeClass) {
+				scmHead *p = (scmHead *)(b->base + j);
+				if (!inuse(gc, p)) {
+					memset(p, 0xdb, b->sizeClass);
+					p->type = scmHeadUnused;
+					p->version = 0;
+				}
+			}
+		}
+	}
+}
+#endif
+
 static void
 gcFlip(GC *gc) {
 	TRACE_SCOPE("gcFlip");
@@ -918,6 +960,12 @@ gcFlip(GC *gc) {
 
 	gc->version = gc->version + 2;
 	gc->state = gcStateNone;
+#ifdef CORA_VERIF_HOOKS
+	coraVerifGCCount++;
+	if (coraVerifGCPoison != 0) {
+		gcVerifPoison(gc);
+	}
+#endif
 
 	// Calculate for the next GC trigger size.
 	// old algorithm:
@@ -951,6 +999,11 @@ gcRunIncremental(GC *gc) {
 	TRACE_SCOPE("gcRunIncremental");
 	const int STEPS_PER_INCREMENT = 200;
 	int steps = STEPS_PER_INCREMENT;
+#ifdef CORA_VERIF_HOOKS
+	if (coraVerifGCSteps != 0) {
+		steps = coraVerifGCSteps;
+	}
+#endif
 
 	while (steps > 0) {
 		scmHead *curr = gcDequeue(gc);
-- 
2.43.0


From 05b852cb7e14454728c6e736aa9a5ab3eed18091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 19/53] fix: a partially applied primitive evaluates its
 arguments once, when it is applied

---
 init.c       | 2922 ++++++++++----------
 lib/toc.c    | 7437 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |   11 +-
 3 files changed, 5245 insertions(+), 5125 deletions(-)

diff --git a/init.c b/init.c
index ecf23ba..26800e0 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313669_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v_2313672_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v_2313675_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v_2313678_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v_2313681_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v_2313685_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v_2313690_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v_2313694_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2313702_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2313704_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2313709_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2313762_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2313765_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2313768_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2313771_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2313774_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2313778_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2313783_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2313787_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2313795_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2313797_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2313802_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v_2314189_25= co->res;
-Obj v_2314195_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2314207_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v_2314208_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2314209_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314208_25);
-Obj v_2314210_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314209_25);
-Obj v_2314211_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2314212_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314211_25);
-Obj v_2314213_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2314212_25);
-Obj v_2314214_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2314215_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314214_25);
-Obj v_2314216_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314215_25);
-Obj v_2314217_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2314218_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314217_25);
-Obj v_2314219_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2314218_25);
-Obj v_2314220_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2314221_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314220_25);
-Obj v_2314222_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2314221_25);
-Obj v_2314223_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2314224_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314223_25);
-Obj v_2314225_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2314224_25);
-Obj v_2314226_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2314227_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314226_25);
-Obj v_2314228_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2314227_25);
-Obj v_2314229_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2314230_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314229_25);
-Obj v_2314231_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2314230_25);
-Obj v_2314232_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2314233_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314232_25);
-Obj v_2314234_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2314233_25);
-Obj v_2314235_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2314236_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314235_25);
-Obj v_2314237_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2314236_25);
-Obj v_2314238_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2314239_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314238_25);
-Obj v_2314240_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2314239_25);
-Obj v_2314241_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2314242_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314241_25);
-Obj v_2314243_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2314242_25);
-Obj v_2314244_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2314245_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2314244_25);
-Obj v_2314246_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2314245_25);
-Obj v_2314247_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2314248_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314247_25);
-Obj v_2314249_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2314248_25);
-Obj v_2314250_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2314251_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314250_25);
-Obj v_2314252_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2314251_25);
-Obj v_2314253_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2314254_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314253_25);
-Obj v_2314255_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2314254_25);
-Obj v_2314256_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2314257_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314256_25);
-Obj v_2314258_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2314257_25);
-Obj v_2314259_25 = makeCons(co->gc, v_2314258_25, Nil);
-Obj v_2314260_25 = makeCons(co->gc, v_2314255_25, v_2314259_25);
-Obj v_2314261_25 = makeCons(co->gc, v_2314252_25, v_2314260_25);
-Obj v_2314262_25 = makeCons(co->gc, v_2314249_25, v_2314261_25);
-Obj v_2314263_25 = makeCons(co->gc, v_2314246_25, v_2314262_25);
-Obj v_2314264_25 = makeCons(co->gc, v_2314243_25, v_2314263_25);
-Obj v_2314265_25 = makeCons(co->gc, v_2314240_25, v_2314264_25);
-Obj v_2314266_25 = makeCons(co->gc, v_2314237_25, v_2314265_25);
-Obj v_2314267_25 = makeCons(co->gc, v_2314234_25, v_2314266_25);
-Obj v_2314268_25 = makeCons(co->gc, v_2314231_25, v_2314267_25);
-Obj v_2314269_25 = makeCons(co->gc, v_2314228_25, v_2314268_25);
-Obj v_2314270_25 = makeCons(co->gc, v_2314225_25, v_2314269_25);
-Obj v_2314271_25 = makeCons(co->gc, v_2314222_25, v_2314270_25);
-Obj v_2314272_25 = makeCons(co->gc, v_2314219_25, v_2314271_25);
-Obj v_2314273_25 = makeCons(co->gc, v_2314216_25, v_2314272_25);
-Obj v_2314274_25 = makeCons(co->gc, v_2314213_25, v_2314273_25);
-Obj v_2314275_25 = makeCons(co->gc, v_2314210_25, v_2314274_25);
-Obj v_2314276_25 = primSet(co, getBinding(co, packageID, 69).name, v_2314275_25);
-Obj v_2314291_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v_2314295_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v_2314473_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v_2314474_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v_2314475_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314474_25);
-Obj v_2314476_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314475_25);
-Obj v_2314477_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314476_25);
-Obj v_2314478_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2314477_25);
-Obj v_2314479_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2314478_25);
-Obj v_2314480_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2314479_25);
-Obj v_2314481_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314480_25);
-Obj v_2314482_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314481_25);
-Obj v_2314483_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314482_25);
-Obj v_2314484_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314483_25);
-Obj v_2314485_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314484_25);
-Obj v_2314486_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314485_25);
-Obj v_2314487_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314486_25);
-Obj v_2314488_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314487_25);
-Obj v_2314489_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314488_25);
-Obj v_2314490_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314489_25);
-Obj v_2314491_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314490_25);
-Obj v_2314492_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314491_25);
-Obj v_2314493_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314492_25);
-Obj v_2314494_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314493_25);
-Obj v_2314495_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314494_25);
-Obj v_2314496_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314495_25);
-Obj v_2314497_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314496_25);
-Obj v_2314498_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314497_25);
-Obj v_2314499_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314498_25);
-Obj v_2314500_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314499_25);
-Obj v_2314501_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314500_25);
-Obj v_2314502_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2314501_25);
-Obj v_2314503_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2314502_25);
-Obj v_2314504_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2314503_25);
-Obj v_2314505_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2314504_25);
-Obj v_2314506_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314505_25);
-Obj v_2314507_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314506_25);
-Obj v_2314508_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314507_25);
-Obj v_2314509_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314508_25);
-Obj v_2314510_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314509_25);
-Obj v_2314511_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314510_25);
-Obj v_2314512_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314511_25);
-Obj v_2314513_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v_2314514_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v_2314515_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v_2314516_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v_2314517_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v_2314518_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v_2314519_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v_2314520_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v_2314521_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v_2314522_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v_2314523_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v_2314524_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v_2314525_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v_2314526_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v_2314527_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v_2314528_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v_2314529_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v_2314530_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v_2314531_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v_2314532_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v_2314533_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v_2314534_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v_2314535_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v_2314536_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v_2314537_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v_2314538_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v_2314539_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v_2314540_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v_2314541_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v_2314542_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v_2314543_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v_2314544_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v_2314545_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v_2314546_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v_2314547_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v_2314548_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v_2314549_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v_2314550_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v_2314551_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v_2314551_25);
+Obj v_2314282_25= co->res;
+Obj v_2314288_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v_2314300_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v_2314301_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2314302_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314301_25);
+Obj v_2314303_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314302_25);
+Obj v_2314304_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2314305_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314304_25);
+Obj v_2314306_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2314305_25);
+Obj v_2314307_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2314308_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314307_25);
+Obj v_2314309_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314308_25);
+Obj v_2314310_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2314311_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314310_25);
+Obj v_2314312_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2314311_25);
+Obj v_2314313_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2314314_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314313_25);
+Obj v_2314315_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2314314_25);
+Obj v_2314316_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2314317_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314316_25);
+Obj v_2314318_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2314317_25);
+Obj v_2314319_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2314320_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314319_25);
+Obj v_2314321_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2314320_25);
+Obj v_2314322_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2314323_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314322_25);
+Obj v_2314324_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2314323_25);
+Obj v_2314325_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2314326_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314325_25);
+Obj v_2314327_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2314326_25);
+Obj v_2314328_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2314329_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314328_25);
+Obj v_2314330_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2314329_25);
+Obj v_2314331_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2314332_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314331_25);
+Obj v_2314333_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2314332_25);
+Obj v_2314334_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2314335_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314334_25);
+Obj v_2314336_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2314335_25);
+Obj v_2314337_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2314338_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2314337_25);
+Obj v_2314339_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2314338_25);
+Obj v_2314340_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2314341_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314340_25);
+Obj v_2314342_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2314341_25);
+Obj v_2314343_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2314344_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314343_25);
+Obj v_2314345_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2314344_25);
+Obj v_2314346_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2314347_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314346_25);
+Obj v_2314348_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2314347_25);
+Obj v_2314349_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2314350_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314349_25);
+Obj v_2314351_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2314350_25);
+Obj v_2314352_25 = makeCons(co->gc, v_2314351_25, Nil);
+Obj v_2314353_25 = makeCons(co->gc, v_2314348_25, v_2314352_25);
+Obj v_2314354_25 = makeCons(co->gc, v_2314345_25, v_2314353_25);
+Obj v_2314355_25 = makeCons(co->gc, v_2314342_25, v_2314354_25);
+Obj v_2314356_25 = makeCons(co->gc, v_2314339_25, v_2314355_25);
+Obj v_2314357_25 = makeCons(co->gc, v_2314336_25, v_2314356_25);
+Obj v_2314358_25 = makeCons(co->gc, v_2314333_25, v_2314357_25);
+Obj v_2314359_25 = makeCons(co->gc, v_2314330_25, v_2314358_25);
+Obj v_2314360_25 = makeCons(co->gc, v_2314327_25, v_2314359_25);
+Obj v_2314361_25 = makeCons(co->gc, v_2314324_25, v_2314360_25);
+Obj v_2314362_25 = makeCons(co->gc, v_2314321_25, v_2314361_25);
+Obj v_2314363_25 = makeCons(co->gc, v_2314318_25, v_2314362_25);
+Obj v_2314364_25 = makeCons(co->gc, v_2314315_25, v_2314363_25);
+Obj v_2314365_25 = makeCons(co->gc, v_2314312_25, v_2314364_25);
+Obj v_2314366_25 = makeCons(co->gc, v_2314309_25, v_2314365_25);
+Obj v_2314367_25 = makeCons(co->gc, v_2314306_25, v_2314366_25);
+Obj v_2314368_25 = makeCons(co->gc, v_2314303_25, v_2314367_25);
+Obj v_2314369_25 = primSet(co, getBinding(co, packageID, 69).name, v_2314368_25);
+Obj v_2314384_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v_2314388_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v_2314566_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v_2314567_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2314568_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314567_25);
+Obj v_2314569_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314568_25);
+Obj v_2314570_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314569_25);
+Obj v_2314571_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2314570_25);
+Obj v_2314572_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2314571_25);
+Obj v_2314573_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2314572_25);
+Obj v_2314574_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314573_25);
+Obj v_2314575_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314574_25);
+Obj v_2314576_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314575_25);
+Obj v_2314577_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314576_25);
+Obj v_2314578_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314577_25);
+Obj v_2314579_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314578_25);
+Obj v_2314580_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314579_25);
+Obj v_2314581_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314580_25);
+Obj v_2314582_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314581_25);
+Obj v_2314583_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314582_25);
+Obj v_2314584_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314583_25);
+Obj v_2314585_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314584_25);
+Obj v_2314586_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314585_25);
+Obj v_2314587_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314586_25);
+Obj v_2314588_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314587_25);
+Obj v_2314589_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314588_25);
+Obj v_2314590_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314589_25);
+Obj v_2314591_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314590_25);
+Obj v_2314592_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314591_25);
+Obj v_2314593_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314592_25);
+Obj v_2314594_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314593_25);
+Obj v_2314595_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2314594_25);
+Obj v_2314596_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2314595_25);
+Obj v_2314597_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2314596_25);
+Obj v_2314598_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2314597_25);
+Obj v_2314599_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314598_25);
+Obj v_2314600_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314599_25);
+Obj v_2314601_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314600_25);
+Obj v_2314602_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314601_25);
+Obj v_2314603_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314602_25);
+Obj v_2314604_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314603_25);
+Obj v_2314605_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314604_25);
+Obj v_2314606_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2314607_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2314608_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2314609_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2314610_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2314611_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2314612_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v_2314613_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v_2314614_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v_2314615_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v_2314616_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2314617_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2314618_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2314619_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2314620_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2314621_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2314622_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2314623_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2314624_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2314625_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2314626_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2314627_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2314628_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2314629_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2314630_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2314631_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2314632_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2314633_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2314634_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2314635_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2314636_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2314637_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v_2314638_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2314639_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v_2314640_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2314641_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2314642_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2314643_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2314644_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2314644_25);
 return;
 }
 case 2:
 {
-Obj v_2314139_25= co->res;
-Obj v_2314168_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v_2314169_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v_2314232_25= co->res;
+Obj v_2314261_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v_2314262_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2314122_25= co->res;
-Obj v_2314136_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v_2314215_25= co->res;
+Obj v_2314229_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v_2314100_25= co->res;
-Obj v_2314120_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2314193_25= co->res;
+Obj v_2314213_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v_2314069_25= co->res;
-Obj v_2314070_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v_2314071_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v_2314074_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v_2314098_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v_2314162_25= co->res;
+Obj v_2314163_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v_2314164_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v_2314167_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v_2314191_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v_2313961_25= co->res;
-Obj v_2314013_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v_2314014_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2314019_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v_2314023_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v_2314024_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2314032_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v_2314033_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2314039_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2314050_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v_2314056_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v_2314054_25= co->res;
+Obj v_2314106_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v_2314107_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v_2314112_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v_2314116_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v_2314117_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2314125_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v_2314126_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v_2314132_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v_2314143_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2314149_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v_2313856_25= co->res;
-Obj v_2313878_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v_2313911_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v_2313924_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v_2313946_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v_2313960_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v_2313949_25= co->res;
+Obj v_2313971_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2314004_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2314017_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2314039_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2314053_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v_2313841_25= co->res;
-Obj v_2313844_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2313854_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v_2313934_25= co->res;
+Obj v_2313937_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2313947_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v_2313827_25= co->res;
-Obj v_2313839_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v_2313920_25= co->res;
+Obj v_2313932_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v_2313813_25= co->res;
-Obj v_2313825_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v_2313906_25= co->res;
+Obj v_2313918_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v_2313799_25= co->res;
+Obj v_2313892_25= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v_2313777_25= co->res;
-Obj v_2313782_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v_2313785_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v_2313797_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v_2313870_25= co->res;
+Obj v_2313875_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2313878_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2313890_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v_2313767_25= co->res;
+Obj v_2313860_25= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v_2313765_25= co->res;
+Obj v_2313858_25= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v_2313710_25= co->res;
-Obj v_2313711_25 = primSet(co, getBinding(co, packageID, 149).name, v_2313710_25);
-Obj v_2313717_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v_2313718_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v_2313719_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v_2313720_25 = primGenSym(co);
-Obj v_2313721_25 = primSet(co, getBinding(co, packageID, 145).name, v_2313720_25);
-Obj v_2313725_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v_2313734_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v_2313735_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v_2313752_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v_2313753_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v_2313764_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v_2313803_25= co->res;
+Obj v_2313804_25 = primSet(co, getBinding(co, packageID, 149).name, v_2313803_25);
+Obj v_2313810_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2313811_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2313812_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v_2313813_25 = primGenSym(co);
+Obj v_2313814_25 = primSet(co, getBinding(co, packageID, 145).name, v_2313813_25);
+Obj v_2313818_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2313827_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2313828_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2313845_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2313846_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v_2313857_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313544_25 = R[1];
-Obj v_2313545_25 = R[2];
-Obj v_2313546_25 = R[3];
-Obj v_2313547_25 = R[4];
-Obj v_2313655_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2313544_25, v_2313545_25, v_2313546_25, v_2313547_25);
-R[1] = v_2313547_25;
-R[2] = v_2313655_25;
+Obj v_2313637_25 = R[1];
+Obj v_2313638_25 = R[2];
+Obj v_2313639_25 = R[3];
+Obj v_2313640_25 = R[4];
+Obj v_2313748_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2313637_25, v_2313638_25, v_2313639_25, v_2313640_25);
+R[1] = v_2313640_25;
+R[2] = v_2313748_25;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313547_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313640_25);
 return;
 }
 case 1:
 {
-Obj v_2314472_25= co->res;
-Obj v_2313655_25 = R[1];
-if (True == v_2314472_25) {
+Obj v_2314565_25= co->res;
+Obj v_2313748_25 = R[1];
+if (True == v_2314565_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313655_25, True);
+coraCall1(co, v_2313748_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313655_25, False);
+coraCall1(co, v_2313748_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2314471_25= co->res;
-Obj v_2313547_25 = R[1];
-Obj v_2313655_25 = R[2];
-if (True == v_2314471_25) {
+Obj v_2314564_25= co->res;
+Obj v_2313640_25 = R[1];
+Obj v_2313748_25 = R[2];
+if (True == v_2314564_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313655_25, True);
+coraCall1(co, v_2313748_25, True);
 return;
 } else {
-R[1] = v_2313655_25;
+R[1] = v_2313748_25;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313547_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313640_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2314469_25= co->res;
-Obj v_2313547_25 = R[1];
-Obj v_2313655_25 = R[2];
-if (True == v_2314469_25) {
+Obj v_2314562_25= co->res;
+Obj v_2313640_25 = R[1];
+Obj v_2313748_25 = R[2];
+if (True == v_2314562_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313655_25, True);
+coraCall1(co, v_2313748_25, True);
 return;
 } else {
-Obj v_2314470_25 = primIsString(v_2313547_25);
-if (True == v_2314470_25) {
+Obj v_2314563_25 = primIsString(v_2313640_25);
+if (True == v_2314563_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313655_25, True);
+coraCall1(co, v_2313748_25, True);
 return;
 } else {
-R[1] = v_2313547_25;
-R[2] = v_2313655_25;
+R[1] = v_2313640_25;
+R[2] = v_2313748_25;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313547_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313640_25);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313656_25 = R[1];
-if (True == v_2313656_25) {
+Obj v_2313749_25 = R[1];
+if (True == v_2313749_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v_2313549_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2314457_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2314457_25) {
-Obj v_2314458_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2314459_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2314458_25);
-if (True == v_2314459_25) {
-Obj v_2314460_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314461_25 = PRIM_ISCONS(v_2314460_25);
-if (True == v_2314461_25) {
-Obj v_2314462_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314463_25 = PRIM_CAR(v_2314462_25);
-Obj v_x = v_2314463_25;
-Obj v_2314464_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314465_25 = PRIM_CDR(v_2314464_25);
-Obj v_2314466_25 = PRIM_EQ(Nil, v_2314465_25);
-if (True == v_2314466_25) {
-Obj v_2314467_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2314468_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314467_25);
-coraReturn(co, v_2314468_25);
+Obj v_2313642_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2314550_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2314550_25) {
+Obj v_2314551_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2314552_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2314551_25);
+if (True == v_2314552_25) {
+Obj v_2314553_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314554_25 = PRIM_ISCONS(v_2314553_25);
+if (True == v_2314554_25) {
+Obj v_2314555_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314556_25 = PRIM_CAR(v_2314555_25);
+Obj v_x = v_2314556_25;
+Obj v_2314557_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314558_25 = PRIM_CDR(v_2314557_25);
+Obj v_2314559_25 = PRIM_EQ(Nil, v_2314558_25);
+if (True == v_2314559_25) {
+Obj v_2314560_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2314561_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314560_25);
+coraReturn(co, v_2314561_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313549_25);
+coraCall0(co, v_2313642_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313549_25);
+coraCall0(co, v_2313642_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313549_25);
+coraCall0(co, v_2313642_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313549_25);
+coraCall0(co, v_2313642_25);
 return;
 }
 }
@@ -721,37 +721,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314296_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2314296_25) {
+Obj v_2314389_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2314389_25) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2313551_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314435_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314435_25) {
-Obj v_2314436_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314437_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314436_25);
-if (True == v_2314437_25) {
-Obj v_2314438_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314439_25 = PRIM_ISCONS(v_2314438_25);
-if (True == v_2314439_25) {
-Obj v_2314440_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314441_25 = PRIM_CAR(v_2314440_25);
-Obj v_args = v_2314441_25;
-Obj v_2314442_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314443_25 = PRIM_CDR(v_2314442_25);
-Obj v_2314444_25 = PRIM_ISCONS(v_2314443_25);
-if (True == v_2314444_25) {
-Obj v_2314445_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314446_25 = PRIM_CDR(v_2314445_25);
-Obj v_2314447_25 = PRIM_CAR(v_2314446_25);
-Obj v_body = v_2314447_25;
-Obj v_2314448_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314449_25 = PRIM_CDR(v_2314448_25);
-Obj v_2314450_25 = PRIM_CDR(v_2314449_25);
-Obj v_2314451_25 = PRIM_EQ(Nil, v_2314450_25);
-if (True == v_2314451_25) {
+Obj v_2313644_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314528_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314528_25) {
+Obj v_2314529_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314530_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314529_25);
+if (True == v_2314530_25) {
+Obj v_2314531_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314532_25 = PRIM_ISCONS(v_2314531_25);
+if (True == v_2314532_25) {
+Obj v_2314533_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314534_25 = PRIM_CAR(v_2314533_25);
+Obj v_args = v_2314534_25;
+Obj v_2314535_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314536_25 = PRIM_CDR(v_2314535_25);
+Obj v_2314537_25 = PRIM_ISCONS(v_2314536_25);
+if (True == v_2314537_25) {
+Obj v_2314538_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314539_25 = PRIM_CDR(v_2314538_25);
+Obj v_2314540_25 = PRIM_CAR(v_2314539_25);
+Obj v_body = v_2314540_25;
+Obj v_2314541_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314542_25 = PRIM_CDR(v_2314541_25);
+Obj v_2314543_25 = PRIM_CDR(v_2314542_25);
+Obj v_2314544_25 = PRIM_EQ(Nil, v_2314543_25);
+if (True == v_2314544_25) {
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun92, 4, R);
@@ -759,35 +759,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313551_25);
+coraCall0(co, v_2313644_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313551_25);
+coraCall0(co, v_2313644_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313551_25);
+coraCall0(co, v_2313644_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313551_25);
+coraCall0(co, v_2313644_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313551_25);
+coraCall0(co, v_2313644_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2314298_25= co->res;
-if (True == v_2314298_25) {
+Obj v_2314391_25= co->res;
+if (True == v_2314391_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj v_2314297_25= co->res;
-if (True == v_2314297_25) {
+Obj v_2314390_25= co->res;
+if (True == v_2314390_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj v_2314453_25= co->res;
+Obj v_2314546_25= co->res;
 Obj v_args = R[1];
-Obj v_2314454_25 = makeCons(co->gc, v_2314453_25, Nil);
-Obj v_2314455_25 = makeCons(co->gc, v_args, v_2314454_25);
-Obj v_2314456_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314455_25);
-coraReturn(co, v_2314456_25);
+Obj v_2314547_25 = makeCons(co->gc, v_2314546_25, Nil);
+Obj v_2314548_25 = makeCons(co->gc, v_args, v_2314547_25);
+Obj v_2314549_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314548_25);
+coraReturn(co, v_2314549_25);
 return;
 }
 case 4:
 {
-Obj v_2314452_25= co->res;
+Obj v_2314545_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314452_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314545_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313552_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314391_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314391_25) {
-Obj v_2314392_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314393_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2314392_25);
-if (True == v_2314393_25) {
-Obj v_2314394_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314395_25 = PRIM_ISCONS(v_2314394_25);
-if (True == v_2314395_25) {
-Obj v_2314396_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314397_25 = PRIM_CAR(v_2314396_25);
-Obj v_2314398_25 = PRIM_ISCONS(v_2314397_25);
-if (True == v_2314398_25) {
-Obj v_2314399_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314400_25 = PRIM_CAR(v_2314399_25);
-Obj v_2314401_25 = PRIM_CAR(v_2314400_25);
-Obj v_2314402_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314401_25);
-if (True == v_2314402_25) {
-Obj v_2314403_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314404_25 = PRIM_CAR(v_2314403_25);
-Obj v_2314405_25 = PRIM_CDR(v_2314404_25);
-Obj v_2314406_25 = PRIM_ISCONS(v_2314405_25);
-if (True == v_2314406_25) {
-Obj v_2314407_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314408_25 = PRIM_CAR(v_2314407_25);
-Obj v_2314409_25 = PRIM_CDR(v_2314408_25);
-Obj v_2314410_25 = PRIM_CAR(v_2314409_25);
-Obj v_pkg = v_2314410_25;
-Obj v_2314411_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314412_25 = PRIM_CAR(v_2314411_25);
-Obj v_2314413_25 = PRIM_CDR(v_2314412_25);
-Obj v_2314414_25 = PRIM_CDR(v_2314413_25);
-Obj v_2314415_25 = PRIM_EQ(Nil, v_2314414_25);
-if (True == v_2314415_25) {
-Obj v_2314416_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314417_25 = PRIM_CDR(v_2314416_25);
-Obj v_2314418_25 = PRIM_ISCONS(v_2314417_25);
-if (True == v_2314418_25) {
-Obj v_2314419_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314420_25 = PRIM_CDR(v_2314419_25);
-Obj v_2314421_25 = PRIM_CAR(v_2314420_25);
-Obj v_y = v_2314421_25;
-Obj v_2314422_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314423_25 = PRIM_CDR(v_2314422_25);
-Obj v_2314424_25 = PRIM_CDR(v_2314423_25);
-Obj v_2314425_25 = PRIM_EQ(Nil, v_2314424_25);
-if (True == v_2314425_25) {
-Obj v_2314426_25 = primIsString(v_pkg);
-if (True == v_2314426_25) {
-Obj v_2314427_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2314428_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314427_25);
+Obj v_2313645_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314484_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314484_25) {
+Obj v_2314485_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314486_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2314485_25);
+if (True == v_2314486_25) {
+Obj v_2314487_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314488_25 = PRIM_ISCONS(v_2314487_25);
+if (True == v_2314488_25) {
+Obj v_2314489_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314490_25 = PRIM_CAR(v_2314489_25);
+Obj v_2314491_25 = PRIM_ISCONS(v_2314490_25);
+if (True == v_2314491_25) {
+Obj v_2314492_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314493_25 = PRIM_CAR(v_2314492_25);
+Obj v_2314494_25 = PRIM_CAR(v_2314493_25);
+Obj v_2314495_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314494_25);
+if (True == v_2314495_25) {
+Obj v_2314496_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314497_25 = PRIM_CAR(v_2314496_25);
+Obj v_2314498_25 = PRIM_CDR(v_2314497_25);
+Obj v_2314499_25 = PRIM_ISCONS(v_2314498_25);
+if (True == v_2314499_25) {
+Obj v_2314500_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314501_25 = PRIM_CAR(v_2314500_25);
+Obj v_2314502_25 = PRIM_CDR(v_2314501_25);
+Obj v_2314503_25 = PRIM_CAR(v_2314502_25);
+Obj v_pkg = v_2314503_25;
+Obj v_2314504_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314505_25 = PRIM_CAR(v_2314504_25);
+Obj v_2314506_25 = PRIM_CDR(v_2314505_25);
+Obj v_2314507_25 = PRIM_CDR(v_2314506_25);
+Obj v_2314508_25 = PRIM_EQ(Nil, v_2314507_25);
+if (True == v_2314508_25) {
+Obj v_2314509_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314510_25 = PRIM_CDR(v_2314509_25);
+Obj v_2314511_25 = PRIM_ISCONS(v_2314510_25);
+if (True == v_2314511_25) {
+Obj v_2314512_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314513_25 = PRIM_CDR(v_2314512_25);
+Obj v_2314514_25 = PRIM_CAR(v_2314513_25);
+Obj v_y = v_2314514_25;
+Obj v_2314515_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314516_25 = PRIM_CDR(v_2314515_25);
+Obj v_2314517_25 = PRIM_CDR(v_2314516_25);
+Obj v_2314518_25 = PRIM_EQ(Nil, v_2314517_25);
+if (True == v_2314518_25) {
+Obj v_2314519_25 = primIsString(v_pkg);
+if (True == v_2314519_25) {
+Obj v_2314520_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2314521_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314520_25);
 R[1] = v_pkg;
 R[2] = v_y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314428_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314521_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313552_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314431_25= co->res;
-Obj v_2314429_25 = R[1];
-Obj v_2314432_25 = makeCons(co->gc, v_2314431_25, Nil);
-Obj v_2314433_25 = makeCons(co->gc, v_2314429_25, v_2314432_25);
-Obj v_2314434_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314433_25);
-coraReturn(co, v_2314434_25);
+Obj v_2314524_25= co->res;
+Obj v_2314522_25 = R[1];
+Obj v_2314525_25 = makeCons(co->gc, v_2314524_25, Nil);
+Obj v_2314526_25 = makeCons(co->gc, v_2314522_25, v_2314525_25);
+Obj v_2314527_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314526_25);
+coraReturn(co, v_2314527_25);
 return;
 }
 case 2:
 {
-Obj v_2314429_25= co->res;
+Obj v_2314522_25= co->res;
 Obj v_pkg = R[1];
 Obj v_y = R[2];
-Obj v_2314430_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
-R[1] = v_2314429_25;
+Obj v_2314523_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2314522_25;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314430_25, v_y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314523_25, v_y);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313553_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314383_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314383_25) {
-Obj v_2314384_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2314384_25;
-Obj v_2314385_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2314385_25;
-Obj v_2313665_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313553_25);
-Obj v_2314389_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
-if (True == v_2314389_25) {
+Obj v_2313646_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314476_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314476_25) {
+Obj v_2314477_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2314477_25;
+Obj v_2314478_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2314478_25;
+Obj v_2313758_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313646_25);
+Obj v_2314482_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
+if (True == v_2314482_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313665_25, True);
+coraCall1(co, v_2313758_25, True);
 return;
 } else {
-Obj v_2314390_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
-if (True == v_2314390_25) {
+Obj v_2314483_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2314483_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313665_25, True);
+coraCall1(co, v_2313758_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313665_25, False);
+coraCall1(co, v_2313758_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313553_25);
+coraCall0(co, v_2313646_25);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313666_25 = R[1];
-if (True == v_2313666_25) {
+Obj v_2313759_25 = R[1];
+if (True == v_2313759_25) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj v_2314387_25= co->res;
-Obj v_2314388_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314387_25);
-coraReturn(co, v_2314388_25);
+Obj v_2314480_25= co->res;
+Obj v_2314481_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314480_25);
+coraReturn(co, v_2314481_25);
 return;
 }
 case 2:
 {
-Obj v_2314386_25= co->res;
+Obj v_2314479_25= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314386_25, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314479_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,42 +1040,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313554_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2314350_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314350_25) {
-Obj v_2314351_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314352_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2314351_25);
-if (True == v_2314352_25) {
-Obj v_2314353_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314354_25 = PRIM_ISCONS(v_2314353_25);
-if (True == v_2314354_25) {
-Obj v_2314355_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314356_25 = PRIM_CAR(v_2314355_25);
-Obj v_a = v_2314356_25;
-Obj v_2314357_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314358_25 = PRIM_CDR(v_2314357_25);
-Obj v_2314359_25 = PRIM_ISCONS(v_2314358_25);
-if (True == v_2314359_25) {
-Obj v_2314360_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314361_25 = PRIM_CDR(v_2314360_25);
-Obj v_2314362_25 = PRIM_CAR(v_2314361_25);
-Obj v_b = v_2314362_25;
-Obj v_2314363_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314364_25 = PRIM_CDR(v_2314363_25);
-Obj v_2314365_25 = PRIM_CDR(v_2314364_25);
-Obj v_2314366_25 = PRIM_ISCONS(v_2314365_25);
-if (True == v_2314366_25) {
-Obj v_2314367_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314368_25 = PRIM_CDR(v_2314367_25);
-Obj v_2314369_25 = PRIM_CDR(v_2314368_25);
-Obj v_2314370_25 = PRIM_CAR(v_2314369_25);
-Obj v_c = v_2314370_25;
-Obj v_2314371_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314372_25 = PRIM_CDR(v_2314371_25);
-Obj v_2314373_25 = PRIM_CDR(v_2314372_25);
-Obj v_2314374_25 = PRIM_CDR(v_2314373_25);
-Obj v_2314375_25 = PRIM_EQ(Nil, v_2314374_25);
-if (True == v_2314375_25) {
+Obj v_2313647_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314443_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314443_25) {
+Obj v_2314444_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314445_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2314444_25);
+if (True == v_2314445_25) {
+Obj v_2314446_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314447_25 = PRIM_ISCONS(v_2314446_25);
+if (True == v_2314447_25) {
+Obj v_2314448_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314449_25 = PRIM_CAR(v_2314448_25);
+Obj v_a = v_2314449_25;
+Obj v_2314450_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314451_25 = PRIM_CDR(v_2314450_25);
+Obj v_2314452_25 = PRIM_ISCONS(v_2314451_25);
+if (True == v_2314452_25) {
+Obj v_2314453_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314454_25 = PRIM_CDR(v_2314453_25);
+Obj v_2314455_25 = PRIM_CAR(v_2314454_25);
+Obj v_b = v_2314455_25;
+Obj v_2314456_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314457_25 = PRIM_CDR(v_2314456_25);
+Obj v_2314458_25 = PRIM_CDR(v_2314457_25);
+Obj v_2314459_25 = PRIM_ISCONS(v_2314458_25);
+if (True == v_2314459_25) {
+Obj v_2314460_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314461_25 = PRIM_CDR(v_2314460_25);
+Obj v_2314462_25 = PRIM_CDR(v_2314461_25);
+Obj v_2314463_25 = PRIM_CAR(v_2314462_25);
+Obj v_c = v_2314463_25;
+Obj v_2314464_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314465_25 = PRIM_CDR(v_2314464_25);
+Obj v_2314466_25 = PRIM_CDR(v_2314465_25);
+Obj v_2314467_25 = PRIM_CDR(v_2314466_25);
+Obj v_2314468_25 = PRIM_EQ(Nil, v_2314467_25);
+if (True == v_2314468_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun88, 2, R);
@@ -1083,57 +1083,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313554_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313554_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313554_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313554_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313554_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313554_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314378_25= co->res;
-Obj v_2314376_25 = R[1];
+Obj v_2314471_25= co->res;
+Obj v_2314469_25 = R[1];
 Obj v_a = R[2];
-Obj v_2314379_25 = makeCons(co->gc, v_2314378_25, Nil);
-Obj v_2314380_25 = makeCons(co->gc, v_2314376_25, v_2314379_25);
-Obj v_2314381_25 = makeCons(co->gc, v_a, v_2314380_25);
-Obj v_2314382_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314381_25);
-coraReturn(co, v_2314382_25);
+Obj v_2314472_25 = makeCons(co->gc, v_2314471_25, Nil);
+Obj v_2314473_25 = makeCons(co->gc, v_2314469_25, v_2314472_25);
+Obj v_2314474_25 = makeCons(co->gc, v_a, v_2314473_25);
+Obj v_2314475_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314474_25);
+coraReturn(co, v_2314475_25);
 return;
 }
 case 2:
 {
-Obj v_2314376_25= co->res;
+Obj v_2314469_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2314377_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2314376_25;
+Obj v_2314470_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2314469_25;
 R[2] = v_a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314377_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314470_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313555_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2314324_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2314324_25) {
-Obj v_2314325_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2314326_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2314325_25);
-if (True == v_2314326_25) {
-Obj v_2314327_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314328_25 = PRIM_ISCONS(v_2314327_25);
-if (True == v_2314328_25) {
-Obj v_2314329_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314330_25 = PRIM_CAR(v_2314329_25);
-Obj v_path = v_2314330_25;
-Obj v_2314331_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314332_25 = PRIM_CDR(v_2314331_25);
-Obj v_2314333_25 = PRIM_ISCONS(v_2314332_25);
-if (True == v_2314333_25) {
-Obj v_2314334_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314335_25 = PRIM_CDR(v_2314334_25);
-Obj v_2314336_25 = PRIM_CAR(v_2314335_25);
-Obj v_import = v_2314336_25;
-Obj v_2314337_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314338_25 = PRIM_CDR(v_2314337_25);
-Obj v_2314339_25 = PRIM_CDR(v_2314338_25);
-Obj v_2314340_25 = PRIM_ISCONS(v_2314339_25);
-if (True == v_2314340_25) {
-Obj v_2314341_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314342_25 = PRIM_CDR(v_2314341_25);
-Obj v_2314343_25 = PRIM_CDR(v_2314342_25);
-Obj v_2314344_25 = PRIM_CAR(v_2314343_25);
-Obj v_body = v_2314344_25;
-Obj v_2314345_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314346_25 = PRIM_CDR(v_2314345_25);
-Obj v_2314347_25 = PRIM_CDR(v_2314346_25);
-Obj v_2314348_25 = PRIM_CDR(v_2314347_25);
-Obj v_2314349_25 = PRIM_EQ(Nil, v_2314348_25);
-if (True == v_2314349_25) {
+Obj v_2313648_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314417_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2314417_25) {
+Obj v_2314418_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2314419_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2314418_25);
+if (True == v_2314419_25) {
+Obj v_2314420_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314421_25 = PRIM_ISCONS(v_2314420_25);
+if (True == v_2314421_25) {
+Obj v_2314422_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314423_25 = PRIM_CAR(v_2314422_25);
+Obj v_path = v_2314423_25;
+Obj v_2314424_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314425_25 = PRIM_CDR(v_2314424_25);
+Obj v_2314426_25 = PRIM_ISCONS(v_2314425_25);
+if (True == v_2314426_25) {
+Obj v_2314427_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314428_25 = PRIM_CDR(v_2314427_25);
+Obj v_2314429_25 = PRIM_CAR(v_2314428_25);
+Obj v_import = v_2314429_25;
+Obj v_2314430_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314431_25 = PRIM_CDR(v_2314430_25);
+Obj v_2314432_25 = PRIM_CDR(v_2314431_25);
+Obj v_2314433_25 = PRIM_ISCONS(v_2314432_25);
+if (True == v_2314433_25) {
+Obj v_2314434_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314435_25 = PRIM_CDR(v_2314434_25);
+Obj v_2314436_25 = PRIM_CDR(v_2314435_25);
+Obj v_2314437_25 = PRIM_CAR(v_2314436_25);
+Obj v_body = v_2314437_25;
+Obj v_2314438_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314439_25 = PRIM_CDR(v_2314438_25);
+Obj v_2314440_25 = PRIM_CDR(v_2314439_25);
+Obj v_2314441_25 = PRIM_CDR(v_2314440_25);
+Obj v_2314442_25 = PRIM_EQ(Nil, v_2314441_25);
+if (True == v_2314442_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313555_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313555_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313555_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313555_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313555_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313555_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 }
@@ -1220,79 +1220,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313556_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v_2314300_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314300_25) {
-Obj v_2314301_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314302_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2314301_25);
-if (True == v_2314302_25) {
-Obj v_2314303_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314304_25 = PRIM_ISCONS(v_2314303_25);
-if (True == v_2314304_25) {
-Obj v_2314305_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314306_25 = PRIM_CAR(v_2314305_25);
-Obj v_var = v_2314306_25;
-Obj v_2314307_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314308_25 = PRIM_CDR(v_2314307_25);
-Obj v_2314309_25 = PRIM_ISCONS(v_2314308_25);
-if (True == v_2314309_25) {
-Obj v_2314310_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314311_25 = PRIM_CDR(v_2314310_25);
-Obj v_2314312_25 = PRIM_CAR(v_2314311_25);
-Obj v_val = v_2314312_25;
-Obj v_2314313_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314314_25 = PRIM_CDR(v_2314313_25);
-Obj v_2314315_25 = PRIM_CDR(v_2314314_25);
-Obj v_2314316_25 = PRIM_EQ(Nil, v_2314315_25);
-if (True == v_2314316_25) {
+Obj v_2313649_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2314393_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314393_25) {
+Obj v_2314394_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314395_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2314394_25);
+if (True == v_2314395_25) {
+Obj v_2314396_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314397_25 = PRIM_ISCONS(v_2314396_25);
+if (True == v_2314397_25) {
+Obj v_2314398_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314399_25 = PRIM_CAR(v_2314398_25);
+Obj v_var = v_2314399_25;
+Obj v_2314400_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314401_25 = PRIM_CDR(v_2314400_25);
+Obj v_2314402_25 = PRIM_ISCONS(v_2314401_25);
+if (True == v_2314402_25) {
+Obj v_2314403_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314404_25 = PRIM_CDR(v_2314403_25);
+Obj v_2314405_25 = PRIM_CAR(v_2314404_25);
+Obj v_val = v_2314405_25;
+Obj v_2314406_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314407_25 = PRIM_CDR(v_2314406_25);
+Obj v_2314408_25 = PRIM_CDR(v_2314407_25);
+Obj v_2314409_25 = PRIM_EQ(Nil, v_2314408_25);
+if (True == v_2314409_25) {
 R[1] = v_val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313556_25);
+coraCall0(co, v_2313649_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313556_25);
+coraCall0(co, v_2313649_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313556_25);
+coraCall0(co, v_2313649_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313556_25);
+coraCall0(co, v_2313649_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313556_25);
+coraCall0(co, v_2313649_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314320_25= co->res;
-Obj v_2314319_25 = R[1];
-Obj v_2314321_25 = makeCons(co->gc, v_2314320_25, Nil);
-Obj v_2314322_25 = makeCons(co->gc, v_2314319_25, v_2314321_25);
-Obj v_2314323_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314322_25);
-coraReturn(co, v_2314323_25);
+Obj v_2314413_25= co->res;
+Obj v_2314412_25 = R[1];
+Obj v_2314414_25 = makeCons(co->gc, v_2314413_25, Nil);
+Obj v_2314415_25 = makeCons(co->gc, v_2314412_25, v_2314414_25);
+Obj v_2314416_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314415_25);
+coraReturn(co, v_2314416_25);
 return;
 }
 case 2:
 {
-Obj v_2314317_25= co->res;
+Obj v_2314410_25= co->res;
 Obj v_val = R[1];
-Obj v_var1 = v_2314317_25;
-Obj v_2314318_25 = makeCons(co->gc, v_var1, Nil);
-Obj v_2314319_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314318_25);
-R[1] = v_2314319_25;
+Obj v_var1 = v_2314410_25;
+Obj v_2314411_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2314412_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314411_25);
+R[1] = v_2314412_25;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj v_2314299_25= co->res;
+Obj v_2314392_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314299_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314392_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj v_2314293_25= co->res;
-Obj v_2314294_25 = primNot(v_2314293_25);
-coraReturn(co, v_2314294_25);
+Obj v_2314386_25= co->res;
+Obj v_2314387_25 = primNot(v_2314386_25);
+coraReturn(co, v_2314387_25);
 return;
 }
 case 2:
 {
-Obj v_2314292_25= co->res;
+Obj v_2314385_25= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314292_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314385_25);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313539_25 = R[1];
-Obj v_2313540_25 = R[2];
-Obj v_2314277_25 = PRIM_EQ(Nil, v_2313540_25);
-if (True == v_2314277_25) {
+Obj v_2313632_25 = R[1];
+Obj v_2313633_25 = R[2];
+Obj v_2314370_25 = PRIM_EQ(Nil, v_2313633_25);
+if (True == v_2314370_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2313542_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2313540_25, v_2313539_25);
-Obj v_2314281_25 = PRIM_ISCONS(v_2313540_25);
-if (True == v_2314281_25) {
-Obj v_2314282_25 = PRIM_CAR(v_2313540_25);
-Obj v_2314283_25 = PRIM_ISCONS(v_2314282_25);
-if (True == v_2314283_25) {
-Obj v_2314284_25 = PRIM_CAR(v_2313540_25);
-Obj v_2314285_25 = PRIM_CAR(v_2314284_25);
-Obj v_x = v_2314285_25;
-Obj v_2314286_25 = PRIM_CAR(v_2313540_25);
-Obj v_2314287_25 = PRIM_CDR(v_2314286_25);
-Obj v_y = v_2314287_25;
-Obj v_2314288_25 = PRIM_CDR(v_2313540_25);
-Obj v_2314289_25 = PRIM_EQ(v_2313539_25, v_x);
-if (True == v_2314289_25) {
-Obj v_2314290_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2314290_25);
+Obj v_2313635_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2313633_25, v_2313632_25);
+Obj v_2314374_25 = PRIM_ISCONS(v_2313633_25);
+if (True == v_2314374_25) {
+Obj v_2314375_25 = PRIM_CAR(v_2313633_25);
+Obj v_2314376_25 = PRIM_ISCONS(v_2314375_25);
+if (True == v_2314376_25) {
+Obj v_2314377_25 = PRIM_CAR(v_2313633_25);
+Obj v_2314378_25 = PRIM_CAR(v_2314377_25);
+Obj v_x = v_2314378_25;
+Obj v_2314379_25 = PRIM_CAR(v_2313633_25);
+Obj v_2314380_25 = PRIM_CDR(v_2314379_25);
+Obj v_y = v_2314380_25;
+Obj v_2314381_25 = PRIM_CDR(v_2313633_25);
+Obj v_2314382_25 = PRIM_EQ(v_2313632_25, v_x);
+if (True == v_2314382_25) {
+Obj v_2314383_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2314383_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313542_25);
+coraCall0(co, v_2313635_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313542_25);
+coraCall0(co, v_2313635_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313542_25);
+coraCall0(co, v_2313635_25);
 return;
 }
 }
@@ -1397,11 +1397,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314278_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314278_25) {
-Obj v_2314279_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314280_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2314280_25;
+Obj v_2314371_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314371_25) {
+Obj v_2314372_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314373_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314373_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
@@ -1418,24 +1418,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313534_25 = R[1];
-Obj v_2313535_25 = R[2];
-Obj v_2313536_25 = R[3];
-Obj v_2314196_25 = PRIM_EQ(Nil, v_2313536_25);
-if (True == v_2314196_25) {
+Obj v_2313627_25 = R[1];
+Obj v_2313628_25 = R[2];
+Obj v_2313629_25 = R[3];
+Obj v_2314289_25 = PRIM_EQ(Nil, v_2313629_25);
+if (True == v_2314289_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313534_25, v_2313535_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313627_25, v_2313628_25);
 return;
 } else {
-Obj v_2314197_25 = PRIM_ISCONS(v_2313536_25);
-if (True == v_2314197_25) {
-Obj v_2314198_25 = PRIM_CAR(v_2313536_25);
-Obj v_import = v_2314198_25;
-Obj v_2314199_25 = PRIM_CDR(v_2313536_25);
-Obj v_more = v_2314199_25;
+Obj v_2314290_25 = PRIM_ISCONS(v_2313629_25);
+if (True == v_2314290_25) {
+Obj v_2314291_25 = PRIM_CAR(v_2313629_25);
+Obj v_import = v_2314291_25;
+Obj v_2314292_25 = PRIM_CDR(v_2313629_25);
+Obj v_more = v_2314292_25;
 R[1] = v_import;
-R[2] = v_2313534_25;
-R[3] = v_2313535_25;
+R[2] = v_2313627_25;
+R[3] = v_2313628_25;
 R[4] = v_more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj v_2314206_25= co->res;
+Obj v_2314299_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314206_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314299_25);
 return;
 }
 case 2:
 {
-Obj v_2314205_25= co->res;
+Obj v_2314298_25= co->res;
 Obj v_import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2314205_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2314298_25);
 return;
 }
 case 3:
 {
-Obj v_2314204_25= co->res;
+Obj v_2314297_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314204_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314297_25);
 return;
 }
 case 4:
 {
-Obj v_2314203_25= co->res;
+Obj v_2314296_25= co->res;
 Obj v_import = R[1];
-Obj v_2313534_25 = R[2];
-Obj v_2313535_25 = R[3];
+Obj v_2313627_25 = R[2];
+Obj v_2313628_25 = R[3];
 Obj v_more = R[4];
-if (True == v_2314203_25) {
+if (True == v_2314296_25) {
 R[1] = v_import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313534_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313627_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313534_25, v_2313535_25, v_more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313627_25, v_2313628_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj v_2314202_25= co->res;
+Obj v_2314295_25= co->res;
 Obj v_import = R[1];
-Obj v_2313534_25 = R[2];
-Obj v_2313535_25 = R[3];
+Obj v_2313627_25 = R[2];
+Obj v_2313628_25 = R[3];
 Obj v_more = R[4];
-Obj v_export = v_2314202_25;
+Obj v_export = v_2314295_25;
 R[1] = v_import;
-R[2] = v_2313534_25;
-R[3] = v_2313535_25;
+R[2] = v_2313627_25;
+R[3] = v_2313628_25;
 R[4] = v_more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2313534_25, v_export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2313627_25, v_export);
 return;
 }
 case 6:
 {
-Obj v_2314201_25= co->res;
+Obj v_2314294_25= co->res;
 Obj v_import = R[1];
-Obj v_2313534_25 = R[2];
-Obj v_2313535_25 = R[3];
+Obj v_2313627_25 = R[2];
+Obj v_2313628_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2313534_25;
-R[3] = v_2313535_25;
+R[2] = v_2313627_25;
+R[3] = v_2313628_25;
 R[4] = v_more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2314201_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2314294_25, Nil);
 return;
 }
 case 7:
 {
-Obj v_2314200_25= co->res;
+Obj v_2314293_25= co->res;
 Obj v_import = R[1];
-Obj v_2313534_25 = R[2];
-Obj v_2313535_25 = R[3];
+Obj v_2313627_25 = R[2];
+Obj v_2313628_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2313534_25;
-R[3] = v_2313535_25;
+R[2] = v_2313627_25;
+R[3] = v_2313628_25;
 R[4] = v_more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314200_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314293_25);
 return;
 }
 }
@@ -1544,8 +1544,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2314190_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v_2314190_25) {
+Obj v_2314283_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2314283_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1558,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj v_2314194_25= co->res;
+Obj v_2314287_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314194_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314287_25);
 return;
 }
 case 2:
 {
-Obj v_2314193_25= co->res;
+Obj v_2314286_25= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2314193_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2314286_25);
 return;
 }
 case 3:
 {
-Obj v_2314192_25= co->res;
+Obj v_2314285_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314192_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314285_25);
 return;
 }
 case 4:
 {
-Obj v_2314191_25= co->res;
+Obj v_2314284_25= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v_2314191_25) {
+if (True == v_2314284_25) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1610,26 +1610,26 @@ return;
 }
 case 1:
 {
-Obj v_2314172_25= co->res;
+Obj v_2314265_25= co->res;
 Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2314172_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
+coraCall1(co, v_2314265_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj v_2314171_25= co->res;
+Obj v_2314264_25= co->res;
 Obj v_path = R[1];
 R[1] = v_path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2314171_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2314264_25);
 return;
 }
 case 3:
 {
-Obj v_2314170_25= co->res;
+Obj v_2314263_25= co->res;
 Obj v_sexp = R[1];
-Obj v_path = v_2314170_25;
+Obj v_path = v_2314263_25;
 R[1] = v_path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
@@ -1645,41 +1645,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2314173_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2314266_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v_2314173_25;
+R[3] = v_2314266_25;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v_2314183_25= co->res;
-Obj v_2314173_25 = R[1];
-Obj v_2314184_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2314183_25);
-Obj v_2314185_25 = makeCons(co->gc, v_2314184_25, Nil);
-Obj v_2314186_25 = makeCons(co->gc, v_2314173_25, v_2314185_25);
-Obj v_2314187_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314186_25);
-Obj v_2314188_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2314187_25);
-coraReturn(co, v_2314188_25);
+Obj v_2314276_25= co->res;
+Obj v_2314266_25 = R[1];
+Obj v_2314277_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2314276_25);
+Obj v_2314278_25 = makeCons(co->gc, v_2314277_25, Nil);
+Obj v_2314279_25 = makeCons(co->gc, v_2314266_25, v_2314278_25);
+Obj v_2314280_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314279_25);
+Obj v_2314281_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2314280_25);
+coraReturn(co, v_2314281_25);
 return;
 }
 case 2:
 {
-Obj v_2314176_25= co->res;
+Obj v_2314269_25= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v_2314173_25 = R[3];
-Obj v_2314177_25 = makeCons(co->gc, v_export, Nil);
-Obj v_2314178_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2314177_25);
-Obj v_2314179_25 = makeCons(co->gc, v_2314178_25, Nil);
-Obj v_2314180_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2314179_25);
-Obj v_2314181_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2314180_25);
-Obj v_2314182_25 = makeCons(co->gc, v_2314181_25, v_body);
-R[1] = v_2314173_25;
+Obj v_2314266_25 = R[3];
+Obj v_2314270_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2314271_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2314270_25);
+Obj v_2314272_25 = makeCons(co->gc, v_2314271_25, Nil);
+Obj v_2314273_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2314272_25);
+Obj v_2314274_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2314273_25);
+Obj v_2314275_25 = makeCons(co->gc, v_2314274_25, v_body);
+R[1] = v_2314266_25;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314176_25, v_2314182_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314269_25, v_2314275_25);
 return;
 }
 }
@@ -1690,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v_2314174_25 = makeCons(co->gc, v_imp, Nil);
-Obj v_2314175_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314174_25);
-coraReturn(co, v_2314175_25);
+Obj v_2314267_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2314268_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314267_25);
+coraReturn(co, v_2314268_25);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313527_25 = R[1];
-Obj v_2313528_25 = R[2];
-Obj v_2313529_25 = R[3];
-Obj v_2313530_25 = R[4];
-Obj v_2313531_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2313529_25, v_2313527_25, v_2313528_25, v_2313530_25);
-Obj v_2314150_25 = PRIM_ISCONS(v_2313527_25);
-if (True == v_2314150_25) {
-Obj v_2314151_25 = PRIM_CAR(v_2313527_25);
-Obj v_2314152_25 = PRIM_ISCONS(v_2314151_25);
-if (True == v_2314152_25) {
-Obj v_2314153_25 = PRIM_CAR(v_2313527_25);
-Obj v_2314154_25 = PRIM_CAR(v_2314153_25);
-Obj v_2314155_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314154_25);
-if (True == v_2314155_25) {
-Obj v_2314156_25 = PRIM_CAR(v_2313527_25);
-Obj v_2314157_25 = PRIM_CDR(v_2314156_25);
-Obj v_2314158_25 = PRIM_ISCONS(v_2314157_25);
-if (True == v_2314158_25) {
-Obj v_2314159_25 = PRIM_CAR(v_2313527_25);
-Obj v_2314160_25 = PRIM_CDR(v_2314159_25);
-Obj v_2314161_25 = PRIM_CAR(v_2314160_25);
-Obj v_lib = v_2314161_25;
-Obj v_2314162_25 = PRIM_CAR(v_2313527_25);
-Obj v_2314163_25 = PRIM_CDR(v_2314162_25);
-Obj v_2314164_25 = PRIM_CDR(v_2314163_25);
-Obj v_2314165_25 = PRIM_EQ(Nil, v_2314164_25);
-if (True == v_2314165_25) {
-Obj v_2314166_25 = PRIM_CDR(v_2313527_25);
-Obj v_rest = v_2314166_25;
-Obj v_2314167_25 = makeCons(co->gc, v_lib, v_2313528_25);
+Obj v_2313620_25 = R[1];
+Obj v_2313621_25 = R[2];
+Obj v_2313622_25 = R[3];
+Obj v_2313623_25 = R[4];
+Obj v_2313624_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2313622_25, v_2313620_25, v_2313621_25, v_2313623_25);
+Obj v_2314243_25 = PRIM_ISCONS(v_2313620_25);
+if (True == v_2314243_25) {
+Obj v_2314244_25 = PRIM_CAR(v_2313620_25);
+Obj v_2314245_25 = PRIM_ISCONS(v_2314244_25);
+if (True == v_2314245_25) {
+Obj v_2314246_25 = PRIM_CAR(v_2313620_25);
+Obj v_2314247_25 = PRIM_CAR(v_2314246_25);
+Obj v_2314248_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314247_25);
+if (True == v_2314248_25) {
+Obj v_2314249_25 = PRIM_CAR(v_2313620_25);
+Obj v_2314250_25 = PRIM_CDR(v_2314249_25);
+Obj v_2314251_25 = PRIM_ISCONS(v_2314250_25);
+if (True == v_2314251_25) {
+Obj v_2314252_25 = PRIM_CAR(v_2313620_25);
+Obj v_2314253_25 = PRIM_CDR(v_2314252_25);
+Obj v_2314254_25 = PRIM_CAR(v_2314253_25);
+Obj v_lib = v_2314254_25;
+Obj v_2314255_25 = PRIM_CAR(v_2313620_25);
+Obj v_2314256_25 = PRIM_CDR(v_2314255_25);
+Obj v_2314257_25 = PRIM_CDR(v_2314256_25);
+Obj v_2314258_25 = PRIM_EQ(Nil, v_2314257_25);
+if (True == v_2314258_25) {
+Obj v_2314259_25 = PRIM_CDR(v_2313620_25);
+Obj v_rest = v_2314259_25;
+Obj v_2314260_25 = makeCons(co->gc, v_lib, v_2313621_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2314167_25, v_2313529_25, v_2313530_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2314260_25, v_2313622_25, v_2313623_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313531_25);
+coraCall0(co, v_2313624_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313531_25);
+coraCall0(co, v_2313624_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313531_25);
+coraCall0(co, v_2313624_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313531_25);
+coraCall0(co, v_2313624_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313531_25);
+coraCall0(co, v_2313624_25);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313532_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2314141_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2314141_25) {
-Obj v_2314142_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2314143_25 = PRIM_ISCONS(v_2314142_25);
-if (True == v_2314143_25) {
-Obj v_2314144_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2314145_25 = PRIM_CAR(v_2314144_25);
-Obj v_2314146_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2314145_25);
-if (True == v_2314146_25) {
-Obj v_2314147_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2314148_25 = PRIM_CDR(v_2314147_25);
-Obj v_more = v_2314148_25;
-Obj v_2314149_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_rest = v_2314149_25;
+Obj v_2313625_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314234_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2314234_25) {
+Obj v_2314235_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314236_25 = PRIM_ISCONS(v_2314235_25);
+if (True == v_2314236_25) {
+Obj v_2314237_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314238_25 = PRIM_CAR(v_2314237_25);
+Obj v_2314239_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2314238_25);
+if (True == v_2314239_25) {
+Obj v_2314240_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314241_25 = PRIM_CDR(v_2314240_25);
+Obj v_more = v_2314241_25;
+Obj v_2314242_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2314242_25;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313532_25);
+coraCall0(co, v_2313625_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313532_25);
+coraCall0(co, v_2313625_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313532_25);
+coraCall0(co, v_2313625_25);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj v_2314140_25= co->res;
+Obj v_2314233_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v_2314140_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2314233_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1848,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj v_2314138_25= co->res;
-Obj v_2314137_25 = R[1];
+Obj v_2314231_25= co->res;
+Obj v_2314230_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2314137_25, v_2314138_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2314230_25, v_2314231_25);
 return;
 }
 case 2:
 {
-Obj v_2314137_25= co->res;
+Obj v_2314230_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2314137_25;
+R[1] = v_2314230_25;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1880,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj v_2314126_25= co->res;
-Obj v_2314125_25 = R[1];
+Obj v_2314219_25= co->res;
+Obj v_2314218_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2314127_25 = makeCons(co->gc, v_2314126_25, Nil);
-Obj v_2314128_25 = makeCons(co->gc, v_2314125_25, v_2314127_25);
-Obj v_2314129_25 = makeCons(co->gc, v_fn, v_2314128_25);
-coraReturn(co, v_2314129_25);
+Obj v_2314220_25 = makeCons(co->gc, v_2314219_25, Nil);
+Obj v_2314221_25 = makeCons(co->gc, v_2314218_25, v_2314220_25);
+Obj v_2314222_25 = makeCons(co->gc, v_fn, v_2314221_25);
+coraReturn(co, v_2314222_25);
 return;
 }
 case 2:
 {
-Obj v_2314132_25= co->res;
-Obj v_2314130_25 = R[1];
+Obj v_2314225_25= co->res;
+Obj v_2314223_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2314133_25 = makeCons(co->gc, v_2314132_25, Nil);
-Obj v_2314134_25 = makeCons(co->gc, v_2314130_25, v_2314133_25);
-Obj v_2314135_25 = makeCons(co->gc, v_fn, v_2314134_25);
-coraReturn(co, v_2314135_25);
+Obj v_2314226_25 = makeCons(co->gc, v_2314225_25, Nil);
+Obj v_2314227_25 = makeCons(co->gc, v_2314223_25, v_2314226_25);
+Obj v_2314228_25 = makeCons(co->gc, v_fn, v_2314227_25);
+coraReturn(co, v_2314228_25);
 return;
 }
 case 3:
 {
-Obj v_2314124_25= co->res;
+Obj v_2314217_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v_2314124_25) {
-Obj v_2314125_25 = PRIM_CAR(v_arglist);
-R[1] = v_2314125_25;
+if (True == v_2314217_25) {
+Obj v_2314218_25 = PRIM_CAR(v_arglist);
+R[1] = v_2314218_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v_2314130_25 = PRIM_CAR(v_arglist);
-Obj v_2314131_25 = PRIM_CDR(v_arglist);
-R[1] = v_2314130_25;
+Obj v_2314223_25 = PRIM_CAR(v_arglist);
+Obj v_2314224_25 = PRIM_CDR(v_arglist);
+R[1] = v_2314223_25;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2314131_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2314224_25);
 return;
 }
 }
 case 4:
 {
-Obj v_2314123_25= co->res;
+Obj v_2314216_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314123_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314216_25);
 return;
 }
 }
@@ -1947,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj v_2314121_25= co->res;
+Obj v_2314214_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2314121_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2314214_25);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313522_25 = R[1];
-Obj v_2314101_25 = primIsSymbol(v_2313522_25);
-if (True == v_2314101_25) {
-Obj v_2314102_25 = makeCons(co->gc, v_2313522_25, Nil);
-Obj v_2314103_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314102_25);
-coraReturn(co, v_2314103_25);
-return;
-} else {
-Obj v_2313524_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2313522_25);
-Obj v_2314110_25 = PRIM_ISCONS(v_2313522_25);
-if (True == v_2314110_25) {
-Obj v_2314111_25 = PRIM_CAR(v_2313522_25);
-Obj v_2314112_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2314111_25);
-if (True == v_2314112_25) {
-Obj v_2314113_25 = PRIM_CDR(v_2313522_25);
-Obj v_2314114_25 = PRIM_ISCONS(v_2314113_25);
-if (True == v_2314114_25) {
-Obj v_2314115_25 = PRIM_CDR(v_2313522_25);
-Obj v_2314116_25 = PRIM_CAR(v_2314115_25);
-Obj v_x = v_2314116_25;
-Obj v_2314117_25 = PRIM_CDR(v_2313522_25);
-Obj v_2314118_25 = PRIM_CDR(v_2314117_25);
-Obj v_2314119_25 = PRIM_EQ(Nil, v_2314118_25);
-if (True == v_2314119_25) {
+Obj v_2313615_25 = R[1];
+Obj v_2314194_25 = primIsSymbol(v_2313615_25);
+if (True == v_2314194_25) {
+Obj v_2314195_25 = makeCons(co->gc, v_2313615_25, Nil);
+Obj v_2314196_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314195_25);
+coraReturn(co, v_2314196_25);
+return;
+} else {
+Obj v_2313617_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2313615_25);
+Obj v_2314203_25 = PRIM_ISCONS(v_2313615_25);
+if (True == v_2314203_25) {
+Obj v_2314204_25 = PRIM_CAR(v_2313615_25);
+Obj v_2314205_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2314204_25);
+if (True == v_2314205_25) {
+Obj v_2314206_25 = PRIM_CDR(v_2313615_25);
+Obj v_2314207_25 = PRIM_ISCONS(v_2314206_25);
+if (True == v_2314207_25) {
+Obj v_2314208_25 = PRIM_CDR(v_2313615_25);
+Obj v_2314209_25 = PRIM_CAR(v_2314208_25);
+Obj v_x = v_2314209_25;
+Obj v_2314210_25 = PRIM_CDR(v_2313615_25);
+Obj v_2314211_25 = PRIM_CDR(v_2314210_25);
+Obj v_2314212_25 = PRIM_EQ(Nil, v_2314211_25);
+if (True == v_2314212_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313524_25);
+coraCall0(co, v_2313617_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313524_25);
+coraCall0(co, v_2313617_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313524_25);
+coraCall0(co, v_2313617_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313524_25);
+coraCall0(co, v_2313617_25);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314104_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314104_25) {
-Obj v_2314105_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314105_25;
-Obj v_2314106_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2314106_25;
-Obj v_2314107_25 = makeCons(co->gc, v_x, v_more);
+Obj v_2314197_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314197_25) {
+Obj v_2314198_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314198_25;
+Obj v_2314199_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2314199_25;
+Obj v_2314200_25 = makeCons(co->gc, v_x, v_more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2314107_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2314200_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj v_2314108_25= co->res;
-Obj v_2314109_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314108_25);
-coraReturn(co, v_2314109_25);
+Obj v_2314201_25= co->res;
+Obj v_2314202_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314201_25);
+coraReturn(co, v_2314202_25);
 return;
 }
 }
@@ -2044,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2314099_25 = PRIM_CDR(v_exp);
+Obj v_2314192_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2314099_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2314192_25);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313518_25 = R[1];
-Obj v_2313519_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2313518_25);
-Obj v_2314094_25 = PRIM_ISCONS(v_2313518_25);
-if (True == v_2314094_25) {
-Obj v_2314095_25 = PRIM_CAR(v_2313518_25);
-Obj v_x = v_2314095_25;
-Obj v_2314096_25 = PRIM_CDR(v_2313518_25);
-Obj v_2314097_25 = PRIM_EQ(Nil, v_2314096_25);
-if (True == v_2314097_25) {
+Obj v_2313611_25 = R[1];
+Obj v_2313612_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2313611_25);
+Obj v_2314187_25 = PRIM_ISCONS(v_2313611_25);
+if (True == v_2314187_25) {
+Obj v_2314188_25 = PRIM_CAR(v_2313611_25);
+Obj v_x = v_2314188_25;
+Obj v_2314189_25 = PRIM_CDR(v_2313611_25);
+Obj v_2314190_25 = PRIM_EQ(Nil, v_2314189_25);
+if (True == v_2314190_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313519_25);
+coraCall0(co, v_2313612_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313519_25);
+coraCall0(co, v_2313612_25);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313520_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v_2314082_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314082_25) {
-Obj v_2314083_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314083_25;
-Obj v_2314084_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314085_25 = PRIM_ISCONS(v_2314084_25);
-if (True == v_2314085_25) {
-Obj v_2314086_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314087_25 = PRIM_CAR(v_2314086_25);
-Obj v_y = v_2314087_25;
-Obj v_2314088_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314089_25 = PRIM_CDR(v_2314088_25);
-Obj v_2314090_25 = PRIM_EQ(Nil, v_2314089_25);
-if (True == v_2314090_25) {
-Obj v_2314091_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2314092_25 = makeCons(co->gc, v_x, v_2314091_25);
-Obj v_2314093_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314092_25);
-coraReturn(co, v_2314093_25);
+Obj v_2313613_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v_2314175_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314175_25) {
+Obj v_2314176_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314176_25;
+Obj v_2314177_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314178_25 = PRIM_ISCONS(v_2314177_25);
+if (True == v_2314178_25) {
+Obj v_2314179_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314180_25 = PRIM_CAR(v_2314179_25);
+Obj v_y = v_2314180_25;
+Obj v_2314181_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314182_25 = PRIM_CDR(v_2314181_25);
+Obj v_2314183_25 = PRIM_EQ(Nil, v_2314182_25);
+if (True == v_2314183_25) {
+Obj v_2314184_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2314185_25 = makeCons(co->gc, v_x, v_2314184_25);
+Obj v_2314186_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314185_25);
+coraReturn(co, v_2314186_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313520_25);
+coraCall0(co, v_2313613_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313520_25);
+coraCall0(co, v_2313613_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313520_25);
+coraCall0(co, v_2313613_25);
 return;
 }
 }
@@ -2128,12 +2128,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314075_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314075_25) {
-Obj v_2314076_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314076_25;
-Obj v_2314077_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2314077_25;
+Obj v_2314168_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314168_25) {
+Obj v_2314169_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314169_25;
+Obj v_2314170_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314170_25;
 R[1] = v_x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj v_2314078_25= co->res;
+Obj v_2314171_25= co->res;
 Obj v_x = R[1];
-Obj v_2314079_25 = makeCons(co->gc, v_2314078_25, Nil);
-Obj v_2314080_25 = makeCons(co->gc, v_x, v_2314079_25);
-Obj v_2314081_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314080_25);
-coraReturn(co, v_2314081_25);
+Obj v_2314172_25 = makeCons(co->gc, v_2314171_25, Nil);
+Obj v_2314173_25 = makeCons(co->gc, v_x, v_2314172_25);
+Obj v_2314174_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314173_25);
+coraReturn(co, v_2314174_25);
 return;
 }
 }
@@ -2168,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj v_2314073_25= co->res;
+Obj v_2314166_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2314073_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2314166_25);
 return;
 }
 case 2:
 {
-Obj v_2314072_25= co->res;
+Obj v_2314165_25= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2314072_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2314165_25);
 return;
 }
 }
@@ -2218,25 +2218,25 @@ return;
 }
 case 1:
 {
-Obj v_2314061_25= co->res;
+Obj v_2314154_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2314062_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
-Obj v_2314063_25 = makeCons(co->gc, v_2314062_25, v_body);
-Obj v_2314064_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2314063_25);
-Obj v_2314065_25 = makeCons(co->gc, v_2314064_25, Nil);
-Obj v_2314066_25 = makeCons(co->gc, v_args, v_2314065_25);
-Obj v_2314067_25 = makeCons(co->gc, v_2314061_25, v_2314066_25);
-Obj v_2314068_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2314067_25);
-coraReturn(co, v_2314068_25);
+Obj v_2314155_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
+Obj v_2314156_25 = makeCons(co->gc, v_2314155_25, v_body);
+Obj v_2314157_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2314156_25);
+Obj v_2314158_25 = makeCons(co->gc, v_2314157_25, Nil);
+Obj v_2314159_25 = makeCons(co->gc, v_args, v_2314158_25);
+Obj v_2314160_25 = makeCons(co->gc, v_2314154_25, v_2314159_25);
+Obj v_2314161_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2314160_25);
+coraReturn(co, v_2314161_25);
 return;
 }
 case 2:
 {
-Obj v_2314060_25= co->res;
+Obj v_2314153_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_args = v_2314060_25;
+Obj v_args = v_2314153_25;
 R[1] = v_body;
 R[2] = v_args;
 saveCont(co, clofun60, 1, R);
@@ -2245,10 +2245,10 @@ return;
 }
 case 3:
 {
-Obj v_2314059_25= co->res;
+Obj v_2314152_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_nargs = v_2314059_25;
+Obj v_nargs = v_2314152_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 2, R);
@@ -2257,9 +2257,9 @@ return;
 }
 case 4:
 {
-Obj v_2314058_25= co->res;
+Obj v_2314151_25= co->res;
 Obj v_exp = R[1];
-Obj v_body = v_2314058_25;
+Obj v_body = v_2314151_25;
 R[1] = v_exp;
 R[2] = v_body;
 saveCont(co, clofun60, 3, R);
@@ -2268,11 +2268,11 @@ return;
 }
 case 5:
 {
-Obj v_2314057_25= co->res;
+Obj v_2314150_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2314057_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2314150_25);
 return;
 }
 }
@@ -2283,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v_2314051_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v_2314051_25) {
+Obj v_2314144_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2314144_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2314052_25 = primGenSym(co);
-Obj v_2314053_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v_2314052_25;
+Obj v_2314145_25 = primGenSym(co);
+Obj v_2314146_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2314145_25;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2314053_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2314146_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314054_25= co->res;
-Obj v_2314052_25 = R[1];
-Obj v_2314055_25 = makeCons(co->gc, v_2314052_25, v_2314054_25);
-coraReturn(co, v_2314055_25);
+Obj v_2314147_25= co->res;
+Obj v_2314145_25 = R[1];
+Obj v_2314148_25 = makeCons(co->gc, v_2314145_25, v_2314147_25);
+coraReturn(co, v_2314148_25);
 return;
 }
 }
@@ -2318,10 +2318,10 @@ return;
 }
 case 1:
 {
-Obj v_2314048_25= co->res;
+Obj v_2314141_25= co->res;
 Obj v_n = R[1];
-Obj v_2314049_25 = primNot(v_2314048_25);
-if (True == v_2314049_25) {
+Obj v_2314142_25 = primNot(v_2314141_25);
+if (True == v_2314142_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2332,29 +2332,29 @@ return;
 }
 case 2:
 {
-Obj v_2314047_25= co->res;
+Obj v_2314140_25= co->res;
 Obj v_n = R[1];
 R[1] = v_n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314047_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314140_25);
 return;
 }
 case 3:
 {
-Obj v_2314042_25= co->res;
-Obj v_counts = v_2314042_25;
-Obj v_2314043_25 = PRIM_CAR(v_counts);
-Obj v_n = v_2314043_25;
-Obj v_2314046_25 = PRIM_CDR(v_counts);
+Obj v_2314135_25= co->res;
+Obj v_counts = v_2314135_25;
+Obj v_2314136_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2314136_25;
+Obj v_2314139_25 = PRIM_CDR(v_counts);
 R[1] = v_n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2314046_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2314139_25);
 return;
 }
 case 4:
 {
-Obj v_2314040_25= co->res;
-Obj v_pats = v_2314040_25;
+Obj v_2314133_25= co->res;
+Obj v_pats = v_2314133_25;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
 return;
@@ -2367,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2314044_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v_2314045_25 = primNot(v_2314044_25);
-coraReturn(co, v_2314045_25);
+Obj v_2314137_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2314138_25 = primNot(v_2314137_25);
+coraReturn(co, v_2314138_25);
 return;
 }
 }
@@ -2380,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2314041_25 = PRIM_CDR(v_x);
+Obj v_2314134_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2314041_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2314134_25);
 return;
 }
 }
@@ -2394,25 +2394,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v_2314034_25 = PRIM_EQ(v_l1, Nil);
-if (True == v_2314034_25) {
+Obj v_2314127_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2314127_25) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v_2314035_25 = PRIM_CAR(v_l1);
-Obj v_2314036_25 = PRIM_CDR(v_l1);
-R[1] = v_2314035_25;
+Obj v_2314128_25 = PRIM_CAR(v_l1);
+Obj v_2314129_25 = PRIM_CDR(v_l1);
+R[1] = v_2314128_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314036_25, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314129_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v_2314037_25= co->res;
-Obj v_2314035_25 = R[1];
-Obj v_2314038_25 = makeCons(co->gc, v_2314035_25, v_2314037_25);
-coraReturn(co, v_2314038_25);
+Obj v_2314130_25= co->res;
+Obj v_2314128_25 = R[1];
+Obj v_2314131_25 = makeCons(co->gc, v_2314128_25, v_2314130_25);
+coraReturn(co, v_2314131_25);
 return;
 }
 }
@@ -2438,14 +2438,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v_2314025_25 = PRIM_ISCONS(v_l);
-if (True == v_2314025_25) {
-Obj v_2314026_25 = PRIM_CAR(v_l);
+Obj v_2314118_25 = PRIM_ISCONS(v_l);
+if (True == v_2314118_25) {
+Obj v_2314119_25 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v_2314026_25);
+coraCall1(co, v_fn, v_2314119_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -2455,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj v_2314027_25= co->res;
+Obj v_2314120_25= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v_2314027_25) {
-Obj v_2314028_25 = PRIM_CAR(v_l);
-Obj v_2314029_25 = makeCons(co->gc, v_2314028_25, v_res);
-Obj v_2314030_25 = PRIM_CDR(v_l);
+if (True == v_2314120_25) {
+Obj v_2314121_25 = PRIM_CAR(v_l);
+Obj v_2314122_25 = makeCons(co->gc, v_2314121_25, v_res);
+Obj v_2314123_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2314029_25, v_fn, v_2314030_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2314122_25, v_fn, v_2314123_25);
 return;
 } else {
-Obj v_2314031_25 = PRIM_CDR(v_l);
+Obj v_2314124_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2314031_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2314124_25);
 return;
 }
 }
@@ -2494,15 +2494,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v_2314020_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2314020_25) {
+Obj v_2314113_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2314113_25) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v_2314021_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v_2314022_25 = PRIM_CDR(v_l);
+Obj v_2314114_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2314115_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2314021_25, v_2314022_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2314114_25, v_2314115_25);
 return;
 }
 }
@@ -2523,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj v_2314018_25= co->res;
-Obj v_2314017_25 = R[1];
+Obj v_2314111_25= co->res;
+Obj v_2314110_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2314017_25, v_2314018_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2314110_25, v_2314111_25);
 return;
 }
 case 2:
 {
-Obj v_2314015_25= co->res;
+Obj v_2314108_25= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v_2314015_25) {
+if (True == v_2314108_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v_2314016_25 = PRIM_CAR(v_rules);
-Obj v_2314017_25 = makeCons(co->gc, v_2314016_25, v_res);
-R[1] = v_2314017_25;
+Obj v_2314109_25 = PRIM_CAR(v_rules);
+Obj v_2314110_25 = makeCons(co->gc, v_2314109_25, v_res);
+R[1] = v_2314110_25;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2569,48 +2569,48 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v_2313962_25 = PRIM_EQ(Nil, v_input);
-if (True == v_2313962_25) {
+Obj v_2314055_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2314055_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v_2313515_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v_2313980_25 = PRIM_ISCONS(v_input);
-if (True == v_2313980_25) {
-Obj v_2313981_25 = PRIM_CAR(v_input);
-Obj v_2313982_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313981_25);
-if (True == v_2313982_25) {
-Obj v_2313983_25 = PRIM_CDR(v_input);
-Obj v_2313984_25 = PRIM_ISCONS(v_2313983_25);
-if (True == v_2313984_25) {
-Obj v_2313985_25 = PRIM_CDR(v_input);
-Obj v_2313986_25 = PRIM_CAR(v_2313985_25);
-Obj v_act = v_2313986_25;
-Obj v_2313987_25 = PRIM_CDR(v_input);
-Obj v_2313988_25 = PRIM_CDR(v_2313987_25);
-Obj v_2313989_25 = PRIM_ISCONS(v_2313988_25);
-if (True == v_2313989_25) {
-Obj v_2313990_25 = PRIM_CDR(v_input);
-Obj v_2313991_25 = PRIM_CDR(v_2313990_25);
-Obj v_2313992_25 = PRIM_CAR(v_2313991_25);
-Obj v_2313993_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2313992_25);
-if (True == v_2313993_25) {
-Obj v_2313994_25 = PRIM_CDR(v_input);
-Obj v_2313995_25 = PRIM_CDR(v_2313994_25);
-Obj v_2313996_25 = PRIM_CDR(v_2313995_25);
-Obj v_2313997_25 = PRIM_ISCONS(v_2313996_25);
-if (True == v_2313997_25) {
-Obj v_2313998_25 = PRIM_CDR(v_input);
-Obj v_2313999_25 = PRIM_CDR(v_2313998_25);
-Obj v_2314000_25 = PRIM_CDR(v_2313999_25);
-Obj v_2314001_25 = PRIM_CAR(v_2314000_25);
-Obj v_pred = v_2314001_25;
-Obj v_2314002_25 = PRIM_CDR(v_input);
-Obj v_2314003_25 = PRIM_CDR(v_2314002_25);
-Obj v_2314004_25 = PRIM_CDR(v_2314003_25);
-Obj v_2314005_25 = PRIM_CDR(v_2314004_25);
-Obj v_remain = v_2314005_25;
+Obj v_2313608_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v_2314073_25 = PRIM_ISCONS(v_input);
+if (True == v_2314073_25) {
+Obj v_2314074_25 = PRIM_CAR(v_input);
+Obj v_2314075_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2314074_25);
+if (True == v_2314075_25) {
+Obj v_2314076_25 = PRIM_CDR(v_input);
+Obj v_2314077_25 = PRIM_ISCONS(v_2314076_25);
+if (True == v_2314077_25) {
+Obj v_2314078_25 = PRIM_CDR(v_input);
+Obj v_2314079_25 = PRIM_CAR(v_2314078_25);
+Obj v_act = v_2314079_25;
+Obj v_2314080_25 = PRIM_CDR(v_input);
+Obj v_2314081_25 = PRIM_CDR(v_2314080_25);
+Obj v_2314082_25 = PRIM_ISCONS(v_2314081_25);
+if (True == v_2314082_25) {
+Obj v_2314083_25 = PRIM_CDR(v_input);
+Obj v_2314084_25 = PRIM_CDR(v_2314083_25);
+Obj v_2314085_25 = PRIM_CAR(v_2314084_25);
+Obj v_2314086_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2314085_25);
+if (True == v_2314086_25) {
+Obj v_2314087_25 = PRIM_CDR(v_input);
+Obj v_2314088_25 = PRIM_CDR(v_2314087_25);
+Obj v_2314089_25 = PRIM_CDR(v_2314088_25);
+Obj v_2314090_25 = PRIM_ISCONS(v_2314089_25);
+if (True == v_2314090_25) {
+Obj v_2314091_25 = PRIM_CDR(v_input);
+Obj v_2314092_25 = PRIM_CDR(v_2314091_25);
+Obj v_2314093_25 = PRIM_CDR(v_2314092_25);
+Obj v_2314094_25 = PRIM_CAR(v_2314093_25);
+Obj v_pred = v_2314094_25;
+Obj v_2314095_25 = PRIM_CDR(v_input);
+Obj v_2314096_25 = PRIM_CDR(v_2314095_25);
+Obj v_2314097_25 = PRIM_CDR(v_2314096_25);
+Obj v_2314098_25 = PRIM_CDR(v_2314097_25);
+Obj v_remain = v_2314098_25;
 R[1] = v_act;
 R[2] = v_pred;
 R[3] = v_result;
@@ -2620,52 +2620,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313515_25);
+coraCall0(co, v_2313608_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313515_25);
+coraCall0(co, v_2313608_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313515_25);
+coraCall0(co, v_2313608_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313515_25);
+coraCall0(co, v_2313608_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313515_25);
+coraCall0(co, v_2313608_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313515_25);
+coraCall0(co, v_2313608_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2314006_25= co->res;
+Obj v_2314099_25= co->res;
 Obj v_act = R[1];
 Obj v_pred = R[2];
 Obj v_result = R[3];
 Obj v_remain = R[4];
-Obj v_2314007_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314006_25);
-Obj v_pat = v_2314007_25;
-Obj v_2314008_25 = makeCons(co->gc, v_act, Nil);
-Obj v_2314009_25 = makeCons(co->gc, v_pred, v_2314008_25);
-Obj v_2314010_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2314009_25);
-Obj v_2314011_25 = makeCons(co->gc, v_pat, v_result);
-Obj v_2314012_25 = makeCons(co->gc, v_2314010_25, v_2314011_25);
+Obj v_2314100_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314099_25);
+Obj v_pat = v_2314100_25;
+Obj v_2314101_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2314102_25 = makeCons(co->gc, v_pred, v_2314101_25);
+Obj v_2314103_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2314102_25);
+Obj v_2314104_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2314105_25 = makeCons(co->gc, v_2314103_25, v_2314104_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314012_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314105_25);
 return;
 }
 }
@@ -2675,21 +2675,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313516_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2313967_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313967_25) {
-Obj v_2313968_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2313969_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2313968_25);
-if (True == v_2313969_25) {
-Obj v_2313970_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313971_25 = PRIM_ISCONS(v_2313970_25);
-if (True == v_2313971_25) {
-Obj v_2313972_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313973_25 = PRIM_CAR(v_2313972_25);
-Obj v_act = v_2313973_25;
-Obj v_2313974_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2313975_25 = PRIM_CDR(v_2313974_25);
-Obj v_remain = v_2313975_25;
+Obj v_2313609_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2314060_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314060_25) {
+Obj v_2314061_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314062_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2314061_25);
+if (True == v_2314062_25) {
+Obj v_2314063_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314064_25 = PRIM_ISCONS(v_2314063_25);
+if (True == v_2314064_25) {
+Obj v_2314065_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314066_25 = PRIM_CAR(v_2314065_25);
+Obj v_act = v_2314066_25;
+Obj v_2314067_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314068_25 = PRIM_CDR(v_2314067_25);
+Obj v_remain = v_2314068_25;
 R[1] = v_act;
 R[2] = v_remain;
 saveCont(co, clofun47, 1, R);
@@ -2697,31 +2697,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313516_25);
+coraCall0(co, v_2313609_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313516_25);
+coraCall0(co, v_2313609_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313516_25);
+coraCall0(co, v_2313609_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2313976_25= co->res;
+Obj v_2314069_25= co->res;
 Obj v_act = R[1];
 Obj v_remain = R[2];
-Obj v_2313977_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2313976_25);
-Obj v_pat = v_2313977_25;
-Obj v_2313978_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
-Obj v_2313979_25 = makeCons(co->gc, v_act, v_2313978_25);
+Obj v_2314070_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314069_25);
+Obj v_pat = v_2314070_25;
+Obj v_2314071_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2314072_25 = makeCons(co->gc, v_act, v_2314071_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2313979_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314072_25);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313963_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2313963_25) {
-Obj v_2313964_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2313964_25;
-Obj v_2313965_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2313965_25;
-Obj v_2313966_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
+Obj v_2314056_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314056_25) {
+Obj v_2314057_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314057_25;
+Obj v_2314058_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314058_25;
+Obj v_2314059_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2313966_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2314059_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2774,35 +2774,35 @@ return;
 }
 case 1:
 {
-Obj v_2313949_25= co->res;
+Obj v_2314042_25= co->res;
 Obj v_value = R[1];
-Obj v_rules = v_2313949_25;
-Obj v_2313611_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
-Obj v_2313956_25 = PRIM_ISCONS(v_value);
-if (True == v_2313956_25) {
-Obj v_2313957_25 = PRIM_CAR(v_value);
-Obj v_2313958_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2313957_25);
-Obj v_2313959_25 = primNot(v_2313958_25);
-if (True == v_2313959_25) {
+Obj v_rules = v_2314042_25;
+Obj v_2313704_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
+Obj v_2314049_25 = PRIM_ISCONS(v_value);
+if (True == v_2314049_25) {
+Obj v_2314050_25 = PRIM_CAR(v_value);
+Obj v_2314051_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2314050_25);
+Obj v_2314052_25 = primNot(v_2314051_25);
+if (True == v_2314052_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313611_25, True);
+coraCall1(co, v_2313704_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313611_25, False);
+coraCall1(co, v_2313704_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313611_25, False);
+coraCall1(co, v_2313704_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313948_25= co->res;
+Obj v_2314041_25= co->res;
 Obj v_exp = R[1];
-Obj v_value = v_2313948_25;
+Obj v_value = v_2314041_25;
 R[1] = v_value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
@@ -2810,11 +2810,11 @@ return;
 }
 case 3:
 {
-Obj v_2313947_25= co->res;
+Obj v_2314040_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2313947_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2314040_25);
 return;
 }
 }
@@ -2824,10 +2824,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313612_25 = R[1];
-if (True == v_2313612_25) {
-Obj v_2313950_25 = primGenSym(co);
-Obj v_val = v_2313950_25;
+Obj v_2313705_25 = R[1];
+if (True == v_2313705_25) {
+Obj v_2314043_25 = primGenSym(co);
+Obj v_val = v_2314043_25;
 R[1] = v_val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj v_2313951_25= co->res;
+Obj v_2314044_25= co->res;
 Obj v_val = R[1];
-Obj v_2313952_25 = makeCons(co->gc, v_2313951_25, Nil);
-Obj v_2313953_25 = makeCons(co->gc, closureRef(R[0], 0), v_2313952_25);
-Obj v_2313954_25 = makeCons(co->gc, v_val, v_2313953_25);
-Obj v_2313955_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313954_25);
-coraReturn(co, v_2313955_25);
+Obj v_2314045_25 = makeCons(co->gc, v_2314044_25, Nil);
+Obj v_2314046_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314045_25);
+Obj v_2314047_25 = makeCons(co->gc, v_val, v_2314046_25);
+Obj v_2314048_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314047_25);
+coraReturn(co, v_2314048_25);
 return;
 }
 }
@@ -2866,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj v_2313945_25= co->res;
-Obj v_2313607_25 = R[1];
-if (True == v_2313945_25) {
+Obj v_2314038_25= co->res;
+Obj v_2313700_25 = R[1];
+if (True == v_2314038_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313607_25, True);
+coraCall1(co, v_2313700_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313607_25, False);
+coraCall1(co, v_2313700_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313943_25= co->res;
+Obj v_2314036_25= co->res;
 Obj v_rules = R[1];
-Obj v_2313607_25 = R[2];
-if (True == v_2313943_25) {
-Obj v_2313944_25 = PRIM_CDR(v_rules);
-R[1] = v_2313607_25;
+Obj v_2313700_25 = R[2];
+if (True == v_2314036_25) {
+Obj v_2314037_25 = PRIM_CDR(v_rules);
+R[1] = v_2313700_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2313944_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2314037_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313607_25, False);
+coraCall1(co, v_2313700_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2313925_25= co->res;
+Obj v_2314018_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v_2313925_25) {
-Obj v_2313926_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v_2313927_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313926_25);
-coraReturn(co, v_2313927_25);
+if (True == v_2314018_25) {
+Obj v_2314019_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2314020_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2314019_25);
+coraReturn(co, v_2314020_25);
 return;
 } else {
-Obj v_2313607_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v_2313700_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v_2313607_25;
+R[2] = v_2313700_25;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2921,12 +2921,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313608_25 = R[1];
-if (True == v_2313608_25) {
-Obj v_2313928_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_pat = v_2313928_25;
-Obj v_2313929_25 = primGenSym(co);
-Obj v_cc = v_2313929_25;
+Obj v_2313701_25 = R[1];
+if (True == v_2313701_25) {
+Obj v_2314021_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2314021_25;
+Obj v_2314022_25 = primGenSym(co);
+Obj v_cc = v_2314022_25;
 R[1] = v_pat;
 R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
@@ -2940,49 +2940,49 @@ return;
 }
 case 1:
 {
-Obj v_2313935_25= co->res;
+Obj v_2314028_25= co->res;
 Obj v_curr = R[1];
 Obj v_cc = R[2];
-Obj v_rest = v_2313935_25;
-Obj v_2313936_25 = makeCons(co->gc, v_rest, Nil);
-Obj v_2313937_25 = makeCons(co->gc, Nil, v_2313936_25);
-Obj v_2313938_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313937_25);
-Obj v_2313939_25 = makeCons(co->gc, v_curr, Nil);
-Obj v_2313940_25 = makeCons(co->gc, v_2313938_25, v_2313939_25);
-Obj v_2313941_25 = makeCons(co->gc, v_cc, v_2313940_25);
-Obj v_2313942_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313941_25);
-coraReturn(co, v_2313942_25);
+Obj v_rest = v_2314028_25;
+Obj v_2314029_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2314030_25 = makeCons(co->gc, Nil, v_2314029_25);
+Obj v_2314031_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314030_25);
+Obj v_2314032_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2314033_25 = makeCons(co->gc, v_2314031_25, v_2314032_25);
+Obj v_2314034_25 = makeCons(co->gc, v_cc, v_2314033_25);
+Obj v_2314035_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314034_25);
+coraReturn(co, v_2314035_25);
 return;
 }
 case 2:
 {
-Obj v_2313932_25= co->res;
+Obj v_2314025_25= co->res;
 Obj v_cc = R[1];
-Obj v_curr = v_2313932_25;
-Obj v_2313933_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2313934_25 = PRIM_CDR(v_2313933_25);
+Obj v_curr = v_2314025_25;
+Obj v_2314026_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2314027_25 = PRIM_CDR(v_2314026_25);
 R[1] = v_curr;
 R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2313934_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2314027_25);
 return;
 }
 case 3:
 {
-Obj v_2313931_25= co->res;
+Obj v_2314024_25= co->res;
 Obj v_action = R[1];
 Obj v_cc = R[2];
 R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2313931_25, closureRef(R[0], 0), v_action, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2314024_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj v_2313930_25= co->res;
+Obj v_2314023_25= co->res;
 Obj v_pat = R[1];
 Obj v_cc = R[2];
-Obj v_action = v_2313930_25;
+Obj v_action = v_2314023_25;
 R[1] = v_action;
 R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
@@ -2998,36 +2998,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v_2313912_25 = PRIM_CDR(v_rules);
-Obj v_2313913_25 = PRIM_CAR(v_2313912_25);
-Obj v_action = v_2313913_25;
-Obj v_2313603_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+Obj v_2314005_25 = PRIM_CDR(v_rules);
+Obj v_2314006_25 = PRIM_CAR(v_2314005_25);
+Obj v_action = v_2314006_25;
+Obj v_2313696_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
 R[1] = v_action;
-R[2] = v_2313603_25;
+R[2] = v_2313696_25;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
 return;
 }
 case 1:
 {
-Obj v_2313921_25= co->res;
+Obj v_2314014_25= co->res;
 Obj v_action = R[1];
-Obj v_2313603_25 = R[2];
-if (True == v_2313921_25) {
-Obj v_2313922_25 = PRIM_CAR(v_action);
-Obj v_2313923_25 = PRIM_EQ(v_2313922_25, getBinding(co, packageID, 110).name);
-if (True == v_2313923_25) {
+Obj v_2313696_25 = R[2];
+if (True == v_2314014_25) {
+Obj v_2314015_25 = PRIM_CAR(v_action);
+Obj v_2314016_25 = PRIM_EQ(v_2314015_25, getBinding(co, packageID, 110).name);
+if (True == v_2314016_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313603_25, True);
+coraCall1(co, v_2313696_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313603_25, False);
+coraCall1(co, v_2313696_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313603_25, False);
+coraCall1(co, v_2313696_25, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313604_25 = R[1];
-if (True == v_2313604_25) {
+Obj v_2313697_25 = R[1];
+if (True == v_2313697_25) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj v_2313915_25= co->res;
-Obj v_2313914_25 = R[1];
-Obj v_2313916_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2313917_25 = makeCons(co->gc, v_2313916_25, Nil);
-Obj v_2313918_25 = makeCons(co->gc, v_2313915_25, v_2313917_25);
-Obj v_2313919_25 = makeCons(co->gc, v_2313914_25, v_2313918_25);
-Obj v_2313920_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313919_25);
-coraReturn(co, v_2313920_25);
+Obj v_2314008_25= co->res;
+Obj v_2314007_25 = R[1];
+Obj v_2314009_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2314010_25 = makeCons(co->gc, v_2314009_25, Nil);
+Obj v_2314011_25 = makeCons(co->gc, v_2314008_25, v_2314010_25);
+Obj v_2314012_25 = makeCons(co->gc, v_2314007_25, v_2314011_25);
+Obj v_2314013_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2314012_25);
+coraReturn(co, v_2314013_25);
 return;
 }
 case 2:
 {
-Obj v_2313914_25= co->res;
-R[1] = v_2313914_25;
+Obj v_2314007_25= co->res;
+R[1] = v_2314007_25;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3089,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj v_2313910_25= co->res;
+Obj v_2314003_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2313910_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2314003_25);
 return;
 }
 case 2:
 {
-Obj v_2313897_25= co->res;
+Obj v_2313990_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2313897_25) {
-Obj v_2313898_25 = PRIM_CAR(v_pat);
-Obj v_2313899_25 = PRIM_EQ(v_2313898_25, getBinding(co, packageID, 139).name);
-if (True == v_2313899_25) {
-Obj v_2313900_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2313901_25 = makeCons(co->gc, v_pat, v_2313900_25);
-Obj v_2313902_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313901_25);
-Obj v_2313903_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2313904_25 = makeCons(co->gc, v_2313903_25, Nil);
-Obj v_2313905_25 = makeCons(co->gc, v_body, v_2313904_25);
-Obj v_2313906_25 = makeCons(co->gc, v_2313902_25, v_2313905_25);
-Obj v_2313907_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313906_25);
-coraReturn(co, v_2313907_25);
-return;
-} else {
-Obj v_2313908_25 = PRIM_CAR(v_pat);
-Obj v_2313909_25 = PRIM_EQ(v_2313908_25, getBinding(co, packageID, 152).name);
-if (True == v_2313909_25) {
+if (True == v_2313990_25) {
+Obj v_2313991_25 = PRIM_CAR(v_pat);
+Obj v_2313992_25 = PRIM_EQ(v_2313991_25, getBinding(co, packageID, 139).name);
+if (True == v_2313992_25) {
+Obj v_2313993_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313994_25 = makeCons(co->gc, v_pat, v_2313993_25);
+Obj v_2313995_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313994_25);
+Obj v_2313996_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313997_25 = makeCons(co->gc, v_2313996_25, Nil);
+Obj v_2313998_25 = makeCons(co->gc, v_body, v_2313997_25);
+Obj v_2313999_25 = makeCons(co->gc, v_2313995_25, v_2313998_25);
+Obj v_2314000_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313999_25);
+coraReturn(co, v_2314000_25);
+return;
+} else {
+Obj v_2314001_25 = PRIM_CAR(v_pat);
+Obj v_2314002_25 = PRIM_EQ(v_2314001_25, getBinding(co, packageID, 152).name);
+if (True == v_2314002_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3136,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj v_2313882_25= co->res;
+Obj v_2313975_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2313882_25) {
-Obj v_2313883_25 = PRIM_EQ(v_pat, v_expr);
-if (True == v_2313883_25) {
+if (True == v_2313975_25) {
+Obj v_2313976_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2313976_25) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v_2313884_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2313885_25 = makeCons(co->gc, v_pat, v_2313884_25);
-Obj v_2313886_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313885_25);
-Obj v_2313887_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2313888_25 = makeCons(co->gc, v_2313887_25, Nil);
-Obj v_2313889_25 = makeCons(co->gc, v_body, v_2313888_25);
-Obj v_2313890_25 = makeCons(co->gc, v_2313886_25, v_2313889_25);
-Obj v_2313891_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313890_25);
-coraReturn(co, v_2313891_25);
+Obj v_2313977_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313978_25 = makeCons(co->gc, v_pat, v_2313977_25);
+Obj v_2313979_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313978_25);
+Obj v_2313980_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313981_25 = makeCons(co->gc, v_2313980_25, Nil);
+Obj v_2313982_25 = makeCons(co->gc, v_body, v_2313981_25);
+Obj v_2313983_25 = makeCons(co->gc, v_2313979_25, v_2313982_25);
+Obj v_2313984_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313983_25);
+coraReturn(co, v_2313984_25);
 return;
 }
 } else {
-Obj v_2313892_25 = primIsSymbol(v_pat);
-if (True == v_2313892_25) {
-Obj v_2313893_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2313894_25 = makeCons(co->gc, v_expr, v_2313893_25);
-Obj v_2313895_25 = makeCons(co->gc, v_pat, v_2313894_25);
-Obj v_2313896_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313895_25);
-coraReturn(co, v_2313896_25);
+Obj v_2313985_25 = primIsSymbol(v_pat);
+if (True == v_2313985_25) {
+Obj v_2313986_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2313987_25 = makeCons(co->gc, v_expr, v_2313986_25);
+Obj v_2313988_25 = makeCons(co->gc, v_pat, v_2313987_25);
+Obj v_2313989_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313988_25);
+coraReturn(co, v_2313989_25);
 return;
 } else {
 R[1] = v_expr;
@@ -3193,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj v_2313879_25= co->res;
+Obj v_2313972_25= co->res;
 Obj v_x = R[1];
-if (True == v_2313879_25) {
-Obj v_2313880_25 = primIsSymbol(v_x);
-Obj v_2313881_25 = primNot(v_2313880_25);
-if (True == v_2313881_25) {
+if (True == v_2313972_25) {
+Obj v_2313973_25 = primIsSymbol(v_x);
+Obj v_2313974_25 = primNot(v_2313973_25);
+if (True == v_2313974_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3231,40 +3231,40 @@ return;
 }
 case 1:
 {
-Obj v_2313858_25= co->res;
+Obj v_2313951_25= co->res;
 Obj v_x = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_y = v_2313858_25;
-Obj v_2313597_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
-Obj v_2313875_25 = PRIM_ISCONS(v_expr);
-if (True == v_2313875_25) {
-Obj v_2313876_25 = PRIM_CAR(v_expr);
-Obj v_2313877_25 = PRIM_EQ(v_2313876_25, getBinding(co, packageID, 152).name);
-if (True == v_2313877_25) {
+Obj v_y = v_2313951_25;
+Obj v_2313690_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2313968_25 = PRIM_ISCONS(v_expr);
+if (True == v_2313968_25) {
+Obj v_2313969_25 = PRIM_CAR(v_expr);
+Obj v_2313970_25 = PRIM_EQ(v_2313969_25, getBinding(co, packageID, 152).name);
+if (True == v_2313970_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313597_25, True);
+coraCall1(co, v_2313690_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313597_25, False);
+coraCall1(co, v_2313690_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313597_25, False);
+coraCall1(co, v_2313690_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313857_25= co->res;
+Obj v_2313950_25= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_x = v_2313857_25;
+Obj v_x = v_2313950_25;
 R[1] = v_x;
 R[2] = v_body;
 R[3] = v_cc;
@@ -3280,38 +3280,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313598_25 = R[1];
-if (True == v_2313598_25) {
+Obj v_2313691_25 = R[1];
+if (True == v_2313691_25) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2313862_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313863_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313862_25);
-Obj v_2313864_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313865_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313864_25);
-Obj v_2313866_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313867_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313866_25);
-R[1] = v_2313865_25;
-R[2] = v_2313863_25;
+Obj v_2313955_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313956_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313955_25);
+Obj v_2313957_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313958_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313957_25);
+Obj v_2313959_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313960_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313959_25);
+R[1] = v_2313958_25;
+R[2] = v_2313956_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2313867_25, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2313960_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v_2313861_25= co->res;
+Obj v_2313954_25= co->res;
 Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2313861_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2313954_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v_2313860_25= co->res;
+Obj v_2313953_25= co->res;
 Obj v_e1 = R[1];
-Obj v_e2 = v_2313860_25;
+Obj v_e2 = v_2313953_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3319,8 +3319,8 @@ return;
 }
 case 3:
 {
-Obj v_2313859_25= co->res;
-Obj v_e1 = v_2313859_25;
+Obj v_2313952_25= co->res;
+Obj v_e1 = v_2313952_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3328,24 +3328,24 @@ return;
 }
 case 4:
 {
-Obj v_2313869_25= co->res;
-Obj v_2313863_25 = R[1];
-Obj v_2313870_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2313871_25 = makeCons(co->gc, v_2313870_25, Nil);
-Obj v_2313872_25 = makeCons(co->gc, v_2313869_25, v_2313871_25);
-Obj v_2313873_25 = makeCons(co->gc, v_2313863_25, v_2313872_25);
-Obj v_2313874_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313873_25);
-coraReturn(co, v_2313874_25);
+Obj v_2313962_25= co->res;
+Obj v_2313956_25 = R[1];
+Obj v_2313963_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2313964_25 = makeCons(co->gc, v_2313963_25, Nil);
+Obj v_2313965_25 = makeCons(co->gc, v_2313962_25, v_2313964_25);
+Obj v_2313966_25 = makeCons(co->gc, v_2313956_25, v_2313965_25);
+Obj v_2313967_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313966_25);
+coraReturn(co, v_2313967_25);
 return;
 }
 case 5:
 {
-Obj v_2313868_25= co->res;
-Obj v_2313865_25 = R[1];
-Obj v_2313863_25 = R[2];
-R[1] = v_2313863_25;
+Obj v_2313961_25= co->res;
+Obj v_2313958_25 = R[1];
+Obj v_2313956_25 = R[2];
+R[1] = v_2313956_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2313865_25, v_2313868_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2313958_25, v_2313961_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313855_25 = PRIM_CDR(v_exp);
+Obj v_2313948_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313855_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313948_25);
 return;
 }
 }
@@ -3369,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v_2313845_25 = PRIM_CDR(v_pat);
+Obj v_2313938_25 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313845_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313938_25);
 return;
 }
 case 1:
 {
-Obj v_2313850_25= co->res;
-Obj v_2313848_25 = R[1];
-Obj v_2313851_25 = makeCons(co->gc, v_2313850_25, Nil);
-Obj v_2313852_25 = makeCons(co->gc, v_2313848_25, v_2313851_25);
-Obj v_2313853_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313852_25);
-coraReturn(co, v_2313853_25);
+Obj v_2313943_25= co->res;
+Obj v_2313941_25 = R[1];
+Obj v_2313944_25 = makeCons(co->gc, v_2313943_25, Nil);
+Obj v_2313945_25 = makeCons(co->gc, v_2313941_25, v_2313944_25);
+Obj v_2313946_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313945_25);
+coraReturn(co, v_2313946_25);
 return;
 }
 case 2:
 {
-Obj v_2313846_25= co->res;
+Obj v_2313939_25= co->res;
 Obj v_pat = R[1];
-if (True == v_2313846_25) {
-Obj v_2313847_25 = PRIM_CAR(v_pat);
-coraReturn(co, v_2313847_25);
+if (True == v_2313939_25) {
+Obj v_2313940_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2313940_25);
 return;
 } else {
-Obj v_2313848_25 = PRIM_CAR(v_pat);
-Obj v_2313849_25 = PRIM_CDR(v_pat);
-R[1] = v_2313848_25;
+Obj v_2313941_25 = PRIM_CAR(v_pat);
+Obj v_2313942_25 = PRIM_CDR(v_pat);
+R[1] = v_2313941_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313849_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313942_25);
 return;
 }
 }
@@ -3410,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313842_25 = PRIM_EQ(v_x, True);
-if (True == v_2313842_25) {
+Obj v_2313935_25 = PRIM_EQ(v_x, True);
+if (True == v_2313935_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313843_25 = PRIM_EQ(v_x, False);
-if (True == v_2313843_25) {
+Obj v_2313936_25 = PRIM_EQ(v_x, False);
+if (True == v_2313936_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313840_25 = PRIM_CDR(v_exp);
+Obj v_2313933_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313840_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313933_25);
 return;
 }
 }
@@ -3446,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2313828_25 = PRIM_EQ(Nil, v_l);
-if (True == v_2313828_25) {
+Obj v_2313921_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2313921_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313829_25 = PRIM_CAR(v_l);
-Obj v_2313830_25 = PRIM_EQ(v_2313829_25, False);
-if (True == v_2313830_25) {
+Obj v_2313922_25 = PRIM_CAR(v_l);
+Obj v_2313923_25 = PRIM_EQ(v_2313922_25, False);
+if (True == v_2313923_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313831_25 = PRIM_CDR(v_l);
+Obj v_2313924_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313831_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313924_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313832_25= co->res;
+Obj v_2313925_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2313832_25;
-Obj v_2313833_25 = PRIM_EQ(v_more, False);
-if (True == v_2313833_25) {
+Obj v_more = v_2313925_25;
+Obj v_2313926_25 = PRIM_EQ(v_more, False);
+if (True == v_2313926_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313834_25 = PRIM_CAR(v_l);
-Obj v_2313835_25 = makeCons(co->gc, False, Nil);
-Obj v_2313836_25 = makeCons(co->gc, v_more, v_2313835_25);
-Obj v_2313837_25 = makeCons(co->gc, v_2313834_25, v_2313836_25);
-Obj v_2313838_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313837_25);
-coraReturn(co, v_2313838_25);
+Obj v_2313927_25 = PRIM_CAR(v_l);
+Obj v_2313928_25 = makeCons(co->gc, False, Nil);
+Obj v_2313929_25 = makeCons(co->gc, v_more, v_2313928_25);
+Obj v_2313930_25 = makeCons(co->gc, v_2313927_25, v_2313929_25);
+Obj v_2313931_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313930_25);
+coraReturn(co, v_2313931_25);
 return;
 }
 }
@@ -3492,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313826_25 = PRIM_CDR(v_exp);
+Obj v_2313919_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313826_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313919_25);
 return;
 }
 }
@@ -3505,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2313814_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2313814_25) {
+Obj v_2313907_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2313907_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313815_25 = PRIM_CAR(v_l);
-Obj v_2313816_25 = PRIM_EQ(v_2313815_25, True);
-if (True == v_2313816_25) {
+Obj v_2313908_25 = PRIM_CAR(v_l);
+Obj v_2313909_25 = PRIM_EQ(v_2313908_25, True);
+if (True == v_2313909_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313817_25 = PRIM_CDR(v_l);
+Obj v_2313910_25 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313817_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313910_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313818_25= co->res;
+Obj v_2313911_25= co->res;
 Obj v_l = R[1];
-Obj v_more = v_2313818_25;
-Obj v_2313819_25 = PRIM_EQ(v_more, True);
-if (True == v_2313819_25) {
+Obj v_more = v_2313911_25;
+Obj v_2313912_25 = PRIM_EQ(v_more, True);
+if (True == v_2313912_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313820_25 = PRIM_CAR(v_l);
-Obj v_2313821_25 = makeCons(co->gc, v_more, Nil);
-Obj v_2313822_25 = makeCons(co->gc, True, v_2313821_25);
-Obj v_2313823_25 = makeCons(co->gc, v_2313820_25, v_2313822_25);
-Obj v_2313824_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313823_25);
-coraReturn(co, v_2313824_25);
+Obj v_2313913_25 = PRIM_CAR(v_l);
+Obj v_2313914_25 = makeCons(co->gc, v_more, Nil);
+Obj v_2313915_25 = makeCons(co->gc, True, v_2313914_25);
+Obj v_2313916_25 = makeCons(co->gc, v_2313913_25, v_2313915_25);
+Obj v_2313917_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313916_25);
+coraReturn(co, v_2313917_25);
 return;
 }
 }
@@ -3551,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313800_25 = PRIM_CDR(v_exp);
-Obj v_2313801_25 = PRIM_EQ(Nil, v_2313800_25);
-if (True == v_2313801_25) {
-Obj v_2313802_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v_2313803_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313802_25);
-coraReturn(co, v_2313803_25);
+Obj v_2313893_25 = PRIM_CDR(v_exp);
+Obj v_2313894_25 = PRIM_EQ(Nil, v_2313893_25);
+if (True == v_2313894_25) {
+Obj v_2313895_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2313896_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313895_25);
+coraReturn(co, v_2313896_25);
 return;
 } else {
 R[1] = v_exp;
@@ -3567,36 +3567,36 @@ return;
 }
 case 1:
 {
-Obj v_2313807_25= co->res;
-Obj v_2313806_25 = R[1];
-Obj v_2313805_25 = R[2];
-Obj v_2313808_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313807_25);
-Obj v_2313809_25 = makeCons(co->gc, v_2313808_25, Nil);
-Obj v_2313810_25 = makeCons(co->gc, v_2313806_25, v_2313809_25);
-Obj v_2313811_25 = makeCons(co->gc, v_2313805_25, v_2313810_25);
-Obj v_2313812_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313811_25);
-coraReturn(co, v_2313812_25);
+Obj v_2313900_25= co->res;
+Obj v_2313899_25 = R[1];
+Obj v_2313898_25 = R[2];
+Obj v_2313901_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313900_25);
+Obj v_2313902_25 = makeCons(co->gc, v_2313901_25, Nil);
+Obj v_2313903_25 = makeCons(co->gc, v_2313899_25, v_2313902_25);
+Obj v_2313904_25 = makeCons(co->gc, v_2313898_25, v_2313903_25);
+Obj v_2313905_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313904_25);
+coraReturn(co, v_2313905_25);
 return;
 }
 case 2:
 {
-Obj v_2313806_25= co->res;
+Obj v_2313899_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313805_25 = R[2];
-R[1] = v_2313806_25;
-R[2] = v_2313805_25;
+Obj v_2313898_25 = R[2];
+R[1] = v_2313899_25;
+R[2] = v_2313898_25;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313804_25= co->res;
+Obj v_2313897_25= co->res;
 Obj v_exp = R[1];
-Obj v_curr = v_2313804_25;
-Obj v_2313805_25 = PRIM_CAR(v_curr);
+Obj v_curr = v_2313897_25;
+Obj v_2313898_25 = PRIM_CAR(v_curr);
 R[1] = v_exp;
-R[2] = v_2313805_25;
+R[2] = v_2313898_25;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
 return;
@@ -3609,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313798_25 = PRIM_CDR(v_exp);
+Obj v_2313891_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313798_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313891_25);
 return;
 }
 }
@@ -3622,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313786_25 = PRIM_CDR(v_exp);
+Obj v_2313879_25 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313786_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313879_25);
 return;
 }
 case 1:
 {
-Obj v_2313792_25= co->res;
-Obj v_2313790_25 = R[1];
-Obj v_2313789_25 = R[2];
-Obj v_2313793_25 = makeCons(co->gc, v_2313792_25, Nil);
-Obj v_2313794_25 = makeCons(co->gc, v_2313790_25, v_2313793_25);
-Obj v_2313795_25 = makeCons(co->gc, v_2313789_25, v_2313794_25);
-Obj v_2313796_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313795_25);
-coraReturn(co, v_2313796_25);
+Obj v_2313885_25= co->res;
+Obj v_2313883_25 = R[1];
+Obj v_2313882_25 = R[2];
+Obj v_2313886_25 = makeCons(co->gc, v_2313885_25, Nil);
+Obj v_2313887_25 = makeCons(co->gc, v_2313883_25, v_2313886_25);
+Obj v_2313888_25 = makeCons(co->gc, v_2313882_25, v_2313887_25);
+Obj v_2313889_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313888_25);
+coraReturn(co, v_2313889_25);
 return;
 }
 case 2:
 {
-Obj v_2313791_25= co->res;
-Obj v_2313790_25 = R[1];
-Obj v_2313789_25 = R[2];
-R[1] = v_2313790_25;
-R[2] = v_2313789_25;
+Obj v_2313884_25= co->res;
+Obj v_2313883_25 = R[1];
+Obj v_2313882_25 = R[2];
+R[1] = v_2313883_25;
+R[2] = v_2313882_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313791_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313884_25);
 return;
 }
 case 3:
 {
-Obj v_2313790_25= co->res;
+Obj v_2313883_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313789_25 = R[2];
-R[1] = v_2313790_25;
-R[2] = v_2313789_25;
+Obj v_2313882_25 = R[2];
+R[1] = v_2313883_25;
+R[2] = v_2313882_25;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2313787_25= co->res;
+Obj v_2313880_25= co->res;
 Obj v_exp = R[1];
-if (True == v_2313787_25) {
-Obj v_2313788_25 = PRIM_CAR(v_exp);
-coraReturn(co, v_2313788_25);
+if (True == v_2313880_25) {
+Obj v_2313881_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2313881_25);
 return;
 } else {
-Obj v_2313789_25 = PRIM_CAR(v_exp);
+Obj v_2313882_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2313789_25;
+R[2] = v_2313882_25;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3687,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313783_25 = PRIM_ISCONS(v_x);
-Obj v_2313784_25 = primNot(v_2313783_25);
-coraReturn(co, v_2313784_25);
+Obj v_2313876_25 = PRIM_ISCONS(v_x);
+Obj v_2313877_25 = primNot(v_2313876_25);
+coraReturn(co, v_2313877_25);
 return;
 }
 }
@@ -3701,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v_2313778_25 = PRIM_ISCONS(v_l);
-if (True == v_2313778_25) {
-Obj v_2313779_25 = PRIM_CAR(v_l);
-Obj v_2313780_25 = PRIM_EQ(v_2313779_25, v_x);
-if (True == v_2313780_25) {
+Obj v_2313871_25 = PRIM_ISCONS(v_l);
+if (True == v_2313871_25) {
+Obj v_2313872_25 = PRIM_CAR(v_l);
+Obj v_2313873_25 = PRIM_EQ(v_2313872_25, v_x);
+if (True == v_2313873_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313781_25 = PRIM_CDR(v_l);
+Obj v_2313874_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2313781_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2313874_25);
 return;
 }
 } else {
@@ -3734,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj v_2313770_25= co->res;
-Obj v_2313769_25 = R[1];
-Obj v_2313768_25 = R[2];
-Obj v_2313771_25 = makeCons(co->gc, v_2313770_25, Nil);
-Obj v_2313772_25 = makeCons(co->gc, v_2313769_25, v_2313771_25);
-Obj v_2313773_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313772_25);
-Obj v_2313774_25 = makeCons(co->gc, v_2313773_25, Nil);
-Obj v_2313775_25 = makeCons(co->gc, v_2313768_25, v_2313774_25);
-Obj v_2313776_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313775_25);
-coraReturn(co, v_2313776_25);
+Obj v_2313863_25= co->res;
+Obj v_2313862_25 = R[1];
+Obj v_2313861_25 = R[2];
+Obj v_2313864_25 = makeCons(co->gc, v_2313863_25, Nil);
+Obj v_2313865_25 = makeCons(co->gc, v_2313862_25, v_2313864_25);
+Obj v_2313866_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313865_25);
+Obj v_2313867_25 = makeCons(co->gc, v_2313866_25, Nil);
+Obj v_2313868_25 = makeCons(co->gc, v_2313861_25, v_2313867_25);
+Obj v_2313869_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313868_25);
+coraReturn(co, v_2313869_25);
 return;
 }
 case 2:
 {
-Obj v_2313769_25= co->res;
+Obj v_2313862_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313768_25 = R[2];
-R[1] = v_2313769_25;
-R[2] = v_2313768_25;
+Obj v_2313861_25 = R[2];
+R[1] = v_2313862_25;
+R[2] = v_2313861_25;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313768_25= co->res;
+Obj v_2313861_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v_2313768_25;
+R[2] = v_2313861_25;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3775,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313766_25 = PRIM_CDR(v_exp);
+Obj v_2313859_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313766_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313859_25);
 return;
 }
 }
@@ -3795,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj v_2313758_25= co->res;
-Obj v_2313757_25 = R[1];
-Obj v_2313756_25 = R[2];
-Obj v_2313759_25 = makeCons(co->gc, v_2313757_25, v_2313758_25);
-Obj v_2313760_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313759_25);
-Obj v_2313761_25 = makeCons(co->gc, v_2313760_25, Nil);
-Obj v_2313762_25 = makeCons(co->gc, v_2313756_25, v_2313761_25);
-Obj v_2313763_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2313762_25);
-coraReturn(co, v_2313763_25);
+Obj v_2313851_25= co->res;
+Obj v_2313850_25 = R[1];
+Obj v_2313849_25 = R[2];
+Obj v_2313852_25 = makeCons(co->gc, v_2313850_25, v_2313851_25);
+Obj v_2313853_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313852_25);
+Obj v_2313854_25 = makeCons(co->gc, v_2313853_25, Nil);
+Obj v_2313855_25 = makeCons(co->gc, v_2313849_25, v_2313854_25);
+Obj v_2313856_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2313855_25);
+coraReturn(co, v_2313856_25);
 return;
 }
 case 2:
 {
-Obj v_2313757_25= co->res;
+Obj v_2313850_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313756_25 = R[2];
-R[1] = v_2313757_25;
-R[2] = v_2313756_25;
+Obj v_2313849_25 = R[2];
+R[1] = v_2313850_25;
+R[2] = v_2313849_25;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313754_25= co->res;
+Obj v_2313847_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313755_25 = makeCons(co->gc, v_2313754_25, Nil);
-Obj v_2313756_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313755_25);
+Obj v_2313848_25 = makeCons(co->gc, v_2313847_25, Nil);
+Obj v_2313849_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313848_25);
 R[1] = v_exp;
-R[2] = v_2313756_25;
+R[2] = v_2313849_25;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3837,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313736_25 = PRIM_ISCONS(v_exp);
-if (True == v_2313736_25) {
-Obj v_2313737_25 = PRIM_CAR(v_exp);
-Obj v_2313738_25 = PRIM_EQ(v_2313737_25, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v_2313738_25) {
-Obj v_2313739_25 = PRIM_CDR(v_exp);
-coraReturn(co, v_2313739_25);
-return;
-} else {
-Obj v_2313740_25 = PRIM_CAR(v_exp);
-Obj v_2313741_25 = PRIM_EQ(v_2313740_25, getBinding(co, packageID, 140).name);
-if (True == v_2313741_25) {
+Obj v_2313829_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313829_25) {
+Obj v_2313830_25 = PRIM_CAR(v_exp);
+Obj v_2313831_25 = PRIM_EQ(v_2313830_25, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v_2313831_25) {
+Obj v_2313832_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2313832_25);
+return;
+} else {
+Obj v_2313833_25 = PRIM_CAR(v_exp);
+Obj v_2313834_25 = PRIM_EQ(v_2313833_25, getBinding(co, packageID, 140).name);
+if (True == v_2313834_25) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v_2313748_25 = PRIM_CAR(v_exp);
-Obj v_2313749_25 = PRIM_EQ(v_2313748_25, getBinding(co, packageID, 139).name);
-if (True == v_2313749_25) {
+Obj v_2313841_25 = PRIM_CAR(v_exp);
+Obj v_2313842_25 = PRIM_EQ(v_2313841_25, getBinding(co, packageID, 139).name);
+if (True == v_2313842_25) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3874,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj v_2313744_25= co->res;
-Obj v_2313742_25 = R[1];
-Obj v_2313745_25 = makeCons(co->gc, v_2313744_25, Nil);
-Obj v_2313746_25 = makeCons(co->gc, v_2313742_25, v_2313745_25);
-Obj v_2313747_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313746_25);
-coraReturn(co, v_2313747_25);
+Obj v_2313837_25= co->res;
+Obj v_2313835_25 = R[1];
+Obj v_2313838_25 = makeCons(co->gc, v_2313837_25, Nil);
+Obj v_2313839_25 = makeCons(co->gc, v_2313835_25, v_2313838_25);
+Obj v_2313840_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313839_25);
+coraReturn(co, v_2313840_25);
 return;
 }
 case 2:
 {
-Obj v_2313743_25= co->res;
-Obj v_2313742_25 = R[1];
-R[1] = v_2313742_25;
+Obj v_2313836_25= co->res;
+Obj v_2313835_25 = R[1];
+R[1] = v_2313835_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2313743_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2313836_25);
 return;
 }
 case 3:
 {
-Obj v_2313742_25= co->res;
+Obj v_2313835_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2313742_25;
+R[1] = v_2313835_25;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2313751_25= co->res;
+Obj v_2313844_25= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313751_25);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313844_25);
 return;
 }
 }
@@ -3916,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v_2313750_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v_2313750_25) {
+Obj v_2313843_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2313843_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3948,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v_2313726_25 = PRIM_EQ(Nil, v_macros);
-if (True == v_2313726_25) {
+Obj v_2313819_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2313819_25) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v_2313733_25 = PRIM_CAR(v_macros);
+Obj v_2313826_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313733_25);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313826_25);
 return;
 }
 }
@@ -3967,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v_2313575_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2313729_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2313729_25) {
-Obj v_2313730_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313731_25 = PRIM_CAR(v_item);
-Obj v_2313732_25 = PRIM_EQ(v_2313730_25, v_2313731_25);
-if (True == v_2313732_25) {
+Obj v_2313668_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2313822_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313822_25) {
+Obj v_2313823_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313824_25 = PRIM_CAR(v_item);
+Obj v_2313825_25 = PRIM_EQ(v_2313823_25, v_2313824_25);
+if (True == v_2313825_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313575_25, True);
+coraCall1(co, v_2313668_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313575_25, False);
+coraCall1(co, v_2313668_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313575_25, False);
+coraCall1(co, v_2313668_25, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313576_25 = R[1];
-if (True == v_2313576_25) {
-Obj v_2313727_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313669_25 = R[1];
+if (True == v_2313669_25) {
+Obj v_2313820_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v_2313727_25, closureRef(R[0], 1));
+coraCall1(co, v_2313820_25, closureRef(R[0], 1));
 return;
 } else {
-Obj v_2313728_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313821_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2313728_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2313821_25);
 return;
 }
 }
@@ -4017,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v_2313722_25 = makeCons(co->gc, v_n, v_v);
-Obj v_2313723_25 = makeCons(co->gc, v_2313722_25, globalRef(co, getBinding(co, packageID, 146)));
-Obj v_2313724_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313723_25);
-coraReturn(co, v_2313724_25);
+Obj v_2313815_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2313816_25 = makeCons(co->gc, v_2313815_25, globalRef(co, getBinding(co, packageID, 146)));
+Obj v_2313817_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313816_25);
+coraReturn(co, v_2313817_25);
 return;
 }
 }
@@ -4046,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v_2313712_25 = PRIM_ISCONS(v_l);
-if (True == v_2313712_25) {
-Obj v_2313713_25 = PRIM_CAR(v_l);
+Obj v_2313805_25 = PRIM_ISCONS(v_l);
+if (True == v_2313805_25) {
+Obj v_2313806_25 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v_2313713_25);
+coraCall1(co, v_f, v_2313806_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -4063,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj v_2313714_25= co->res;
+Obj v_2313807_25= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v_2313715_25 = makeCons(co->gc, v_2313714_25, v_res);
-Obj v_2313716_25 = PRIM_CDR(v_l);
+Obj v_2313808_25 = makeCons(co->gc, v_2313807_25, v_res);
+Obj v_2313809_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2313715_25, v_f, v_2313716_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2313808_25, v_f, v_2313809_25);
 return;
 }
 }
@@ -4082,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v_2313705_25 = PRIM_ISCONS(v_l);
-if (True == v_2313705_25) {
-Obj v_2313706_25 = PRIM_CAR(v_l);
-Obj v_2313707_25 = makeCons(co->gc, v_2313706_25, v_res);
-Obj v_2313708_25 = PRIM_CDR(v_l);
+Obj v_2313798_25 = PRIM_ISCONS(v_l);
+if (True == v_2313798_25) {
+Obj v_2313799_25 = PRIM_CAR(v_l);
+Obj v_2313800_25 = makeCons(co->gc, v_2313799_25, v_res);
+Obj v_2313801_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2313707_25, v_2313708_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2313800_25, v_2313801_25);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313703_25 = PRIM_ISCONS(v_x);
-coraReturn(co, v_2313703_25);
+Obj v_2313796_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2313796_25);
 return;
 }
 }
@@ -4115,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313695_25 = PRIM_ISCONS(v_exp);
-if (True == v_2313695_25) {
-Obj v_2313696_25 = PRIM_CAR(v_exp);
-Obj v_2313697_25 = PRIM_CDR(v_exp);
-R[1] = v_2313696_25;
+Obj v_2313788_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313788_25) {
+Obj v_2313789_25 = PRIM_CAR(v_exp);
+Obj v_2313790_25 = PRIM_CDR(v_exp);
+R[1] = v_2313789_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313697_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313790_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj v_2313698_25= co->res;
-Obj v_2313696_25 = R[1];
-Obj v_2313699_25 = makeCons(co->gc, v_2313698_25, Nil);
-Obj v_2313700_25 = makeCons(co->gc, v_2313696_25, v_2313699_25);
-Obj v_2313701_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313700_25);
-coraReturn(co, v_2313701_25);
+Obj v_2313791_25= co->res;
+Obj v_2313789_25 = R[1];
+Obj v_2313792_25 = makeCons(co->gc, v_2313791_25, Nil);
+Obj v_2313793_25 = makeCons(co->gc, v_2313789_25, v_2313792_25);
+Obj v_2313794_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313793_25);
+coraReturn(co, v_2313794_25);
 return;
 }
 }
@@ -4146,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313691_25 = PRIM_CDR(v_x);
-Obj v_2313692_25 = PRIM_CDR(v_2313691_25);
-Obj v_2313693_25 = PRIM_CDR(v_2313692_25);
-coraReturn(co, v_2313693_25);
+Obj v_2313784_25 = PRIM_CDR(v_x);
+Obj v_2313785_25 = PRIM_CDR(v_2313784_25);
+Obj v_2313786_25 = PRIM_CDR(v_2313785_25);
+coraReturn(co, v_2313786_25);
 return;
 }
 }
@@ -4160,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313686_25 = PRIM_CDR(v_x);
-Obj v_2313687_25 = PRIM_CDR(v_2313686_25);
-Obj v_2313688_25 = PRIM_CDR(v_2313687_25);
-Obj v_2313689_25 = PRIM_CAR(v_2313688_25);
-coraReturn(co, v_2313689_25);
+Obj v_2313779_25 = PRIM_CDR(v_x);
+Obj v_2313780_25 = PRIM_CDR(v_2313779_25);
+Obj v_2313781_25 = PRIM_CDR(v_2313780_25);
+Obj v_2313782_25 = PRIM_CAR(v_2313781_25);
+coraReturn(co, v_2313782_25);
 return;
 }
 }
@@ -4175,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313682_25 = PRIM_CDR(v_x);
-Obj v_2313683_25 = PRIM_CDR(v_2313682_25);
-Obj v_2313684_25 = PRIM_CAR(v_2313683_25);
-coraReturn(co, v_2313684_25);
+Obj v_2313775_25 = PRIM_CDR(v_x);
+Obj v_2313776_25 = PRIM_CDR(v_2313775_25);
+Obj v_2313777_25 = PRIM_CAR(v_2313776_25);
+coraReturn(co, v_2313777_25);
 return;
 }
 }
@@ -4189,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313679_25 = PRIM_CDR(v_x);
-Obj v_2313680_25 = PRIM_CDR(v_2313679_25);
-coraReturn(co, v_2313680_25);
+Obj v_2313772_25 = PRIM_CDR(v_x);
+Obj v_2313773_25 = PRIM_CDR(v_2313772_25);
+coraReturn(co, v_2313773_25);
 return;
 }
 }
@@ -4202,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313676_25 = PRIM_CAR(v_x);
-Obj v_2313677_25 = PRIM_CDR(v_2313676_25);
-coraReturn(co, v_2313677_25);
+Obj v_2313769_25 = PRIM_CAR(v_x);
+Obj v_2313770_25 = PRIM_CDR(v_2313769_25);
+coraReturn(co, v_2313770_25);
 return;
 }
 }
@@ -4215,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313673_25 = PRIM_CAR(v_x);
-Obj v_2313674_25 = PRIM_CAR(v_2313673_25);
-coraReturn(co, v_2313674_25);
+Obj v_2313766_25 = PRIM_CAR(v_x);
+Obj v_2313767_25 = PRIM_CAR(v_2313766_25);
+coraReturn(co, v_2313767_25);
 return;
 }
 }
@@ -4228,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313670_25 = PRIM_CDR(v_x);
-Obj v_2313671_25 = PRIM_CAR(v_2313670_25);
-coraReturn(co, v_2313671_25);
+Obj v_2313763_25 = PRIM_CDR(v_x);
+Obj v_2313764_25 = PRIM_CAR(v_2313763_25);
+coraReturn(co, v_2313764_25);
 return;
 }
 }
@@ -4241,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313668_25 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v_2313668_25);
+Obj v_2313761_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2313761_25);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index f902573..88fe65f 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,9 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun155(struct Cora* co, int label, Obj *R);
+static void clofun154(struct Cora* co, int label, Obj *R);
+static void clofun153(struct Cora* co, int label, Obj *R);
 static void clofun152(struct Cora* co, int label, Obj *R);
 static void clofun151(struct Cora* co, int label, Obj *R);
 static void clofun150(struct Cora* co, int label, Obj *R);
@@ -159,7 +162,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 136);
+Binding *__symbolTable = malloc(sizeof(Binding) * 137);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
@@ -239,255 +242,257 @@ __symbolTable[75] = bindSymbol(co, intern("cora/init#boolean?"));
 __symbolTable[76] = bindSymbol(co, intern("cora/init#number?"));
 __symbolTable[77] = bindSymbol(co, intern("quote"));
 __symbolTable[78] = bindSymbol(co, intern("do"));
-__symbolTable[79] = bindSymbol(co, intern("let"));
-__symbolTable[80] = bindSymbol(co, intern("if"));
-__symbolTable[81] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[82] = bindSymbol(co, intern("lambda"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[84] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[85] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[86] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[87] = bindSymbol(co, intern("cora/lib/toc#parse-quote"));
-__symbolTable[88] = bindSymbol(co, intern("cora/init#value"));
-__symbolTable[89] = bindSymbol(co, intern("cora/lib/toc#let-variable"));
-__symbolTable[90] = bindSymbol(co, intern("cora/lib/toc#extend-env"));
-__symbolTable[91] = bindSymbol(co, intern("%builtin"));
-__symbolTable[92] = bindSymbol(co, intern("%global"));
-__symbolTable[93] = bindSymbol(co, intern("%const"));
-__symbolTable[94] = bindSymbol(co, intern("%closure-ref"));
-__symbolTable[95] = bindSymbol(co, intern("%closure"));
-__symbolTable[96] = bindSymbol(co, intern("%continuation"));
-__symbolTable[97] = bindSymbol(co, intern("continuation"));
-__symbolTable[98] = bindSymbol(co, intern("tailcall"));
-__symbolTable[99] = bindSymbol(co, intern("call"));
-__symbolTable[100] = bindSymbol(co, intern("return"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#elem?"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#local-name"));
-__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[104] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[106] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[107] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[108] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[109] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[110] = bindSymbol(co, intern("string?"));
-__symbolTable[111] = bindSymbol(co, intern("integer?"));
-__symbolTable[112] = bindSymbol(co, intern("not"));
-__symbolTable[113] = bindSymbol(co, intern("symbol?"));
-__symbolTable[114] = bindSymbol(co, intern("gensym"));
-__symbolTable[115] = bindSymbol(co, intern("<"));
-__symbolTable[116] = bindSymbol(co, intern(">"));
-__symbolTable[117] = bindSymbol(co, intern("="));
-__symbolTable[118] = bindSymbol(co, intern("/"));
-__symbolTable[119] = bindSymbol(co, intern("*"));
-__symbolTable[120] = bindSymbol(co, intern("-"));
-__symbolTable[121] = bindSymbol(co, intern("+"));
-__symbolTable[122] = bindSymbol(co, intern("cons?"));
-__symbolTable[123] = bindSymbol(co, intern("cons"));
-__symbolTable[124] = bindSymbol(co, intern("cdr"));
-__symbolTable[125] = bindSymbol(co, intern("car"));
-__symbolTable[126] = bindSymbol(co, intern("set"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[132] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[133] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[134] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[135] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[79] = bindSymbol(co, intern("if"));
+__symbolTable[80] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[81] = bindSymbol(co, intern("lambda"));
+__symbolTable[82] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[84] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[85] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[86] = bindSymbol(co, intern("cora/lib/toc#parse-quote"));
+__symbolTable[87] = bindSymbol(co, intern("cora/init#value"));
+__symbolTable[88] = bindSymbol(co, intern("cora/lib/toc#let-variable"));
+__symbolTable[89] = bindSymbol(co, intern("cora/lib/toc#extend-env"));
+__symbolTable[90] = bindSymbol(co, intern("%builtin"));
+__symbolTable[91] = bindSymbol(co, intern("%global"));
+__symbolTable[92] = bindSymbol(co, intern("%const"));
+__symbolTable[93] = bindSymbol(co, intern("%closure-ref"));
+__symbolTable[94] = bindSymbol(co, intern("%closure"));
+__symbolTable[95] = bindSymbol(co, intern("%continuation"));
+__symbolTable[96] = bindSymbol(co, intern("continuation"));
+__symbolTable[97] = bindSymbol(co, intern("tailcall"));
+__symbolTable[98] = bindSymbol(co, intern("call"));
+__symbolTable[99] = bindSymbol(co, intern("return"));
+__symbolTable[100] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[101] = bindSymbol(co, intern("cora/lib/toc#local-name"));
+__symbolTable[102] = bindSymbol(co, intern("let"));
+__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#bind-args"));
+__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[105] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[106] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[107] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[108] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[109] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[110] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[111] = bindSymbol(co, intern("string?"));
+__symbolTable[112] = bindSymbol(co, intern("integer?"));
+__symbolTable[113] = bindSymbol(co, intern("not"));
+__symbolTable[114] = bindSymbol(co, intern("symbol?"));
+__symbolTable[115] = bindSymbol(co, intern("gensym"));
+__symbolTable[116] = bindSymbol(co, intern("<"));
+__symbolTable[117] = bindSymbol(co, intern(">"));
+__symbolTable[118] = bindSymbol(co, intern("="));
+__symbolTable[119] = bindSymbol(co, intern("/"));
+__symbolTable[120] = bindSymbol(co, intern("*"));
+__symbolTable[121] = bindSymbol(co, intern("-"));
+__symbolTable[122] = bindSymbol(co, intern("+"));
+__symbolTable[123] = bindSymbol(co, intern("cons?"));
+__symbolTable[124] = bindSymbol(co, intern("cons"));
+__symbolTable[125] = bindSymbol(co, intern("cdr"));
+__symbolTable[126] = bindSymbol(co, intern("car"));
+__symbolTable[127] = bindSymbol(co, intern("set"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[132] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[133] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[134] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[135] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[136] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun152;
+co->ctx.fn = clofun155;
 co->ctx.label = 0;
 }
 
-static void clofun152(struct Cora* co, int label, Obj *R) {
+static void clofun155(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun152, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/toc/internal"));
+saveCont(co, clofun155, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v_2319590_25= co->res;
-Obj v_2319596_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun118, 2, 0));
-Obj v_2319602_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun119, 2, 0));
-Obj v_2319624_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun121, 3, 0));
-Obj v_2319647_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun123, 4, 0));
-Obj v_2319660_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun126, 3, 0));
-Obj v_2319701_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun131, 1, 0));
-Obj v_2319740_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun134, 4, 0));
-Obj v_2319792_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun139, 2, 0));
-Obj v_2319793_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun140, 2, 0));
-Obj v_2319807_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun148, 1, 0));
-Obj v_2319808_25 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v_2319821_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun150, 1, 0));
-Obj v_2319831_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun151, 2, 0));
-coraReturn(co, v_2319831_25);
+Obj v_2319707_25= co->res;
+Obj v_2319713_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun121, 2, 0));
+Obj v_2319719_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun122, 2, 0));
+Obj v_2319741_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun124, 3, 0));
+Obj v_2319764_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun126, 4, 0));
+Obj v_2319777_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun129, 3, 0));
+Obj v_2319818_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun134, 1, 0));
+Obj v_2319857_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun137, 4, 0));
+Obj v_2319909_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun142, 2, 0));
+Obj v_2319910_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun143, 2, 0));
+Obj v_2319924_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun151, 1, 0));
+Obj v_2319925_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2319938_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun153, 1, 0));
+Obj v_2319948_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun154, 2, 0));
+coraReturn(co, v_2319948_25);
 return;
 }
 case 2:
 {
-Obj v_2318149_25= co->res;
-Obj v_2318150_25 = primSet(co, getBinding(co, packageID, 134).name, Nil);
-Obj v_2318165_25 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v_2318171_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v_2318181_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v_2318182_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v_2318189_25 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2318190_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2318191_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318190_25);
-Obj v_2318192_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2318191_25);
-Obj v_2318193_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2318194_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318193_25);
-Obj v_2318195_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2318194_25);
-Obj v_2318196_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2318197_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318196_25);
-Obj v_2318198_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2318197_25);
-Obj v_2318199_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2318200_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318199_25);
-Obj v_2318201_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2318200_25);
-Obj v_2318202_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2318203_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318202_25);
-Obj v_2318204_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2318203_25);
-Obj v_2318205_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2318206_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318205_25);
-Obj v_2318207_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2318206_25);
-Obj v_2318208_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2318209_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318208_25);
-Obj v_2318210_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2318209_25);
-Obj v_2318211_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2318212_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318211_25);
-Obj v_2318213_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2318212_25);
-Obj v_2318214_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2318215_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318214_25);
-Obj v_2318216_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2318215_25);
-Obj v_2318217_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2318218_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318217_25);
-Obj v_2318219_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2318218_25);
-Obj v_2318220_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2318221_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318220_25);
-Obj v_2318222_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2318221_25);
-Obj v_2318223_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2318224_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318223_25);
-Obj v_2318225_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2318224_25);
-Obj v_2318226_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2318227_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2318226_25);
-Obj v_2318228_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2318227_25);
-Obj v_2318229_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2318230_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318229_25);
-Obj v_2318231_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2318230_25);
-Obj v_2318232_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2318233_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318232_25);
-Obj v_2318234_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2318233_25);
-Obj v_2318235_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2318236_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318235_25);
-Obj v_2318237_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2318236_25);
-Obj v_2318238_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2318239_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318238_25);
-Obj v_2318240_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2318239_25);
-Obj v_2318241_25 = makeCons(co->gc, v_2318240_25, Nil);
-Obj v_2318242_25 = makeCons(co->gc, v_2318237_25, v_2318241_25);
-Obj v_2318243_25 = makeCons(co->gc, v_2318234_25, v_2318242_25);
-Obj v_2318244_25 = makeCons(co->gc, v_2318231_25, v_2318243_25);
-Obj v_2318245_25 = makeCons(co->gc, v_2318228_25, v_2318244_25);
-Obj v_2318246_25 = makeCons(co->gc, v_2318225_25, v_2318245_25);
-Obj v_2318247_25 = makeCons(co->gc, v_2318222_25, v_2318246_25);
-Obj v_2318248_25 = makeCons(co->gc, v_2318219_25, v_2318247_25);
-Obj v_2318249_25 = makeCons(co->gc, v_2318216_25, v_2318248_25);
-Obj v_2318250_25 = makeCons(co->gc, v_2318213_25, v_2318249_25);
-Obj v_2318251_25 = makeCons(co->gc, v_2318210_25, v_2318250_25);
-Obj v_2318252_25 = makeCons(co->gc, v_2318207_25, v_2318251_25);
-Obj v_2318253_25 = makeCons(co->gc, v_2318204_25, v_2318252_25);
-Obj v_2318254_25 = makeCons(co->gc, v_2318201_25, v_2318253_25);
-Obj v_2318255_25 = makeCons(co->gc, v_2318198_25, v_2318254_25);
-Obj v_2318256_25 = makeCons(co->gc, v_2318195_25, v_2318255_25);
-Obj v_2318257_25 = makeCons(co->gc, v_2318192_25, v_2318256_25);
-Obj v_2318258_25 = primSet(co, getBinding(co, packageID, 127).name, v_2318257_25);
-Obj v_2318262_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2318265_25 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2318268_25 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2318273_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v_2318286_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun11, 1, 0));
-Obj v_2318297_25 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 4, clofun14, 3, 0));
-Obj v_2318307_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun16, 3, 0));
-Obj v_2318324_25 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 4, clofun17, 2, 0));
-Obj v_2318524_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun28, 4, 0));
-Obj v_2318535_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun30, 2, 0));
-Obj v_2318546_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun32, 2, 0));
-Obj v_2318607_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun39, 1, 0));
-Obj v_2318782_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2318855_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun52, 2, 0));
-Obj v_2318858_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun53, 1, 0));
-Obj v_2318995_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj v_2319018_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj v_2319095_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun69, 2, 0));
-Obj v_2319126_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun73, 3, 0));
-Obj v_2319132_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun76, 4, 0));
-Obj v_2319137_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun78, 2, 0));
-Obj v_2319146_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun80, 1, 0));
-Obj v_2319197_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun82, 2, 0));
-Obj v_2319205_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun83, 2, 0));
-Obj v_2319212_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun84, 2, 0));
-Obj v_2319217_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun85, 2, 0));
-Obj v_2319223_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun86, 3, 0));
-Obj v_2319224_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun87, 2, 0));
-Obj v_2319231_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun89, 5, 0));
-Obj v_2319238_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun91, 5, 0));
-Obj v_2319525_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun104, 5, 0));
-Obj v_2319539_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun106, 5, 0));
-Obj v_2319561_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun108, 5, 0));
-Obj v_2319563_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun109, 2, 0));
-Obj v_2319567_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj v_2319570_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj v_2319571_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun112, 1, 0));
-Obj v_2319572_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun113, 1, 0));
-Obj v_2319573_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun114, 1, 0));
-Obj v_2319580_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun115, 1, 0));
-Obj v_2319587_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun116, 2, 0));
-saveCont(co, clofun152, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun117, 1, 0));
+Obj v_2318250_25= co->res;
+Obj v_2318251_25 = primSet(co, getBinding(co, packageID, 135).name, Nil);
+Obj v_2318266_25 = primSet(co, getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2318272_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2318282_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2318283_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2318290_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2318291_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2318292_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318291_25);
+Obj v_2318293_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2318292_25);
+Obj v_2318294_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2318295_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318294_25);
+Obj v_2318296_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2318295_25);
+Obj v_2318297_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2318298_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318297_25);
+Obj v_2318299_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2318298_25);
+Obj v_2318300_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2318301_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318300_25);
+Obj v_2318302_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2318301_25);
+Obj v_2318303_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2318304_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318303_25);
+Obj v_2318305_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2318304_25);
+Obj v_2318306_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2318307_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318306_25);
+Obj v_2318308_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2318307_25);
+Obj v_2318309_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2318310_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318309_25);
+Obj v_2318311_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2318310_25);
+Obj v_2318312_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2318313_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318312_25);
+Obj v_2318314_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2318313_25);
+Obj v_2318315_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2318316_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318315_25);
+Obj v_2318317_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2318316_25);
+Obj v_2318318_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2318319_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318318_25);
+Obj v_2318320_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2318319_25);
+Obj v_2318321_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2318322_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318321_25);
+Obj v_2318323_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2318322_25);
+Obj v_2318324_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2318325_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318324_25);
+Obj v_2318326_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2318325_25);
+Obj v_2318327_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2318328_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2318327_25);
+Obj v_2318329_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2318328_25);
+Obj v_2318330_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2318331_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318330_25);
+Obj v_2318332_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2318331_25);
+Obj v_2318333_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2318334_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318333_25);
+Obj v_2318335_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2318334_25);
+Obj v_2318336_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2318337_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318336_25);
+Obj v_2318338_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2318337_25);
+Obj v_2318339_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2318340_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318339_25);
+Obj v_2318341_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2318340_25);
+Obj v_2318342_25 = makeCons(co->gc, v_2318341_25, Nil);
+Obj v_2318343_25 = makeCons(co->gc, v_2318338_25, v_2318342_25);
+Obj v_2318344_25 = makeCons(co->gc, v_2318335_25, v_2318343_25);
+Obj v_2318345_25 = makeCons(co->gc, v_2318332_25, v_2318344_25);
+Obj v_2318346_25 = makeCons(co->gc, v_2318329_25, v_2318345_25);
+Obj v_2318347_25 = makeCons(co->gc, v_2318326_25, v_2318346_25);
+Obj v_2318348_25 = makeCons(co->gc, v_2318323_25, v_2318347_25);
+Obj v_2318349_25 = makeCons(co->gc, v_2318320_25, v_2318348_25);
+Obj v_2318350_25 = makeCons(co->gc, v_2318317_25, v_2318349_25);
+Obj v_2318351_25 = makeCons(co->gc, v_2318314_25, v_2318350_25);
+Obj v_2318352_25 = makeCons(co->gc, v_2318311_25, v_2318351_25);
+Obj v_2318353_25 = makeCons(co->gc, v_2318308_25, v_2318352_25);
+Obj v_2318354_25 = makeCons(co->gc, v_2318305_25, v_2318353_25);
+Obj v_2318355_25 = makeCons(co->gc, v_2318302_25, v_2318354_25);
+Obj v_2318356_25 = makeCons(co->gc, v_2318299_25, v_2318355_25);
+Obj v_2318357_25 = makeCons(co->gc, v_2318296_25, v_2318356_25);
+Obj v_2318358_25 = makeCons(co->gc, v_2318293_25, v_2318357_25);
+Obj v_2318359_25 = primSet(co, getBinding(co, packageID, 128).name, v_2318358_25);
+Obj v_2318363_25 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2318366_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2318369_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2318374_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2318388_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 4, clofun13, 3, 0));
+Obj v_2318401_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun14, 1, 0));
+Obj v_2318412_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun17, 3, 0));
+Obj v_2318422_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 4, clofun19, 3, 0));
+Obj v_2318439_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun20, 2, 0));
+Obj v_2318641_25 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 5, clofun31, 4, 0));
+Obj v_2318652_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun33, 2, 0));
+Obj v_2318663_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun35, 2, 0));
+Obj v_2318724_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun42, 1, 0));
+Obj v_2318899_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2318972_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun55, 2, 0));
+Obj v_2318975_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun56, 1, 0));
+Obj v_2319112_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun65, 2, 0));
+Obj v_2319135_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun68, 3, 0));
+Obj v_2319212_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun72, 2, 0));
+Obj v_2319243_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun76, 3, 0));
+Obj v_2319249_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun79, 4, 0));
+Obj v_2319254_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v_2319263_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun83, 1, 0));
+Obj v_2319314_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun85, 2, 0));
+Obj v_2319322_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun86, 2, 0));
+Obj v_2319329_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun87, 2, 0));
+Obj v_2319334_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 4, clofun88, 2, 0));
+Obj v_2319340_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun89, 3, 0));
+Obj v_2319341_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun90, 2, 0));
+Obj v_2319348_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun92, 5, 0));
+Obj v_2319355_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun94, 5, 0));
+Obj v_2319642_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun107, 5, 0));
+Obj v_2319656_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun109, 5, 0));
+Obj v_2319678_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun111, 5, 0));
+Obj v_2319680_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v_2319684_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v_2319687_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj v_2319688_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun115, 1, 0));
+Obj v_2319689_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun116, 1, 0));
+Obj v_2319690_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun117, 1, 0));
+Obj v_2319697_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun118, 1, 0));
+Obj v_2319704_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun119, 2, 0));
+saveCont(co, clofun155, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun120, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2318148_25= co->res;
-saveCont(co, clofun152, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/hash-h"));
+Obj v_2318249_25= co->res;
+saveCont(co, clofun155, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v_2318147_25= co->res;
-saveCont(co, clofun152, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), makeCString(co->gc, "cora/lib/io"));
+Obj v_2318248_25= co->res;
+saveCont(co, clofun155, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun151(struct Cora* co, int label, Obj *R) {
+static void clofun154(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v_2319822_25 = primGenSym(co);
-Obj v_globals = v_2319822_25;
-Obj v_2319823_25 = primSet(co, v_globals, Nil);
+Obj v_2319939_25 = primGenSym(co);
+Obj v_globals = v_2319939_25;
+Obj v_2319940_25 = primSet(co, v_globals, Nil);
 R[1] = v_from;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun151, 7, R);
+saveCont(co, clofun154, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2319830_25= co->res;
+Obj v_2319947_25= co->res;
 Obj v_stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
@@ -495,91 +500,91 @@ return;
 }
 case 2:
 {
-Obj v_2319829_25= co->res;
+Obj v_2319946_25= co->res;
 Obj v_bc = R[1];
 Obj v_stream = R[2];
 R[1] = v_stream;
-saveCont(co, clofun151, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2319829_25);
+saveCont(co, clofun154, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2319946_25);
 return;
 }
 case 3:
 {
-Obj v_2319828_25= co->res;
+Obj v_2319945_25= co->res;
 Obj v_globals = R[1];
 Obj v_bc = R[2];
-Obj v_stream = v_2319828_25;
+Obj v_stream = v_2319945_25;
 R[1] = v_bc;
 R[2] = v_stream;
-saveCont(co, clofun151, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_globals);
+saveCont(co, clofun154, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_globals);
 return;
 }
 case 4:
 {
-Obj v_2319827_25= co->res;
+Obj v_2319944_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_bc = v_2319827_25;
+Obj v_bc = v_2319944_25;
 R[1] = v_globals;
 R[2] = v_bc;
-saveCont(co, clofun151, 3, R);
+saveCont(co, clofun154, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj v_2319826_25= co->res;
-Obj v_2319824_25 = R[1];
+Obj v_2319943_25= co->res;
+Obj v_2319941_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
-saveCont(co, clofun151, 4, R);
-coraCall1(co, v_2319824_25, v_2319826_25);
+saveCont(co, clofun154, 4, R);
+coraCall1(co, v_2319941_25, v_2319943_25);
 return;
 }
 case 6:
 {
-Obj v_2319825_25= co->res;
-Obj v_2319824_25 = R[1];
+Obj v_2319942_25= co->res;
+Obj v_2319941_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2319824_25;
+R[1] = v_2319941_25;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun151, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2319825_25);
+saveCont(co, clofun154, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2319942_25);
 return;
 }
 case 7:
 {
-Obj v_2319824_25= co->res;
+Obj v_2319941_25= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2319824_25;
+R[1] = v_2319941_25;
 R[2] = v_to;
 R[3] = v_globals;
-saveCont(co, clofun151, 6, R);
+saveCont(co, clofun154, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
 }
 
-static void clofun150(struct Cora* co, int label, Obj *R) {
+static void clofun153(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_file_2dpath = R[1];
-saveCont(co, clofun150, 8, R);
+saveCont(co, clofun153, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_2dpath);
 return;
 }
 case 1:
 {
-Obj v_2319816_25= co->res;
+Obj v_2319933_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -587,16 +592,16 @@ return;
 }
 case 2:
 {
-Obj v_2319815_25= co->res;
+Obj v_2319932_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun150, 1, R);
+saveCont(co, clofun153, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 3:
 {
-Obj v_2319818_25= co->res;
+Obj v_2319935_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -604,16 +609,16 @@ return;
 }
 case 4:
 {
-Obj v_2319817_25= co->res;
+Obj v_2319934_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun150, 3, R);
+saveCont(co, clofun153, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 5:
 {
-Obj v_2319820_25= co->res;
+Obj v_2319937_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -621,115 +626,115 @@ return;
 }
 case 6:
 {
-Obj v_2319819_25= co->res;
+Obj v_2319936_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun150, 5, R);
+saveCont(co, clofun153, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_sexp);
 return;
 }
 case 7:
 {
-Obj v_2319812_25= co->res;
-Obj v_2318143_25 = R[1];
+Obj v_2319929_25= co->res;
+Obj v_2318244_25 = R[1];
 Obj v_sexp = R[2];
-if (True == v_2319812_25) {
-Obj v_2319813_25 = PRIM_CAR(v_sexp);
-Obj v_2319814_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319813_25);
-if (True == v_2319814_25) {
+if (True == v_2319929_25) {
+Obj v_2319930_25 = PRIM_CAR(v_sexp);
+Obj v_2319931_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319930_25);
+if (True == v_2319931_25) {
 R[1] = v_sexp;
-saveCont(co, clofun150, 2, R);
-coraCall1(co, v_2318143_25, True);
+saveCont(co, clofun153, 2, R);
+coraCall1(co, v_2318244_25, True);
 return;
 } else {
 R[1] = v_sexp;
-saveCont(co, clofun150, 4, R);
-coraCall1(co, v_2318143_25, False);
+saveCont(co, clofun153, 4, R);
+coraCall1(co, v_2318244_25, False);
 return;
 }
 } else {
 R[1] = v_sexp;
-saveCont(co, clofun150, 6, R);
-coraCall1(co, v_2318143_25, False);
+saveCont(co, clofun153, 6, R);
+coraCall1(co, v_2318244_25, False);
 return;
 }
 }
 case 8:
 {
-Obj v_2319809_25= co->res;
-Obj v_sexp = v_2319809_25;
-Obj v_2318143_25 = makeNative(co->gc, 2, clofun149, 1, 1, v_sexp);
-R[1] = v_2318143_25;
+Obj v_2319926_25= co->res;
+Obj v_sexp = v_2319926_25;
+Obj v_2318244_25 = makeNative(co->gc, 2, clofun152, 1, 1, v_sexp);
+R[1] = v_2318244_25;
 R[2] = v_sexp;
-saveCont(co, clofun150, 7, R);
+saveCont(co, clofun153, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_sexp);
 return;
 }
 }
 }
 
-static void clofun149(struct Cora* co, int label, Obj *R) {
+static void clofun152(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318144_25 = R[1];
-if (True == v_2318144_25) {
-Obj v_2319810_25 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v_2319810_25);
+Obj v_2318245_25 = R[1];
+if (True == v_2318245_25) {
+Obj v_2319927_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2319927_25);
 return;
 } else {
-Obj v_2319811_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v_2319811_25);
+Obj v_2319928_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2319928_25);
 return;
 }
 }
 }
 }
 
-static void clofun148(struct Cora* co, int label, Obj *R) {
+static void clofun151(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317976_25 = R[1];
-Obj v_2317977_25 = makeNative(co->gc, 1, clofun145, 0, 1, v_2317976_25);
-Obj v_2319802_25 = PRIM_ISCONS(v_2317976_25);
-if (True == v_2319802_25) {
-Obj v_2319803_25 = PRIM_CAR(v_2317976_25);
-Obj v_2319804_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319803_25);
-if (True == v_2319804_25) {
-Obj v_2319805_25 = PRIM_CDR(v_2317976_25);
-Obj v_more = v_2319805_25;
-Obj v_2319806_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
+Obj v_2318074_25 = R[1];
+Obj v_2318075_25 = makeNative(co->gc, 1, clofun148, 0, 1, v_2318074_25);
+Obj v_2319919_25 = PRIM_ISCONS(v_2318074_25);
+if (True == v_2319919_25) {
+Obj v_2319920_25 = PRIM_CAR(v_2318074_25);
+Obj v_2319921_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319920_25);
+if (True == v_2319921_25) {
+Obj v_2319922_25 = PRIM_CDR(v_2318074_25);
+Obj v_more = v_2319922_25;
+Obj v_2319923_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319806_25, makeNative(co->gc, 2, clofun147, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319923_25, makeNative(co->gc, 2, clofun150, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318075_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318075_25);
 return;
 }
 }
 }
 }
 
-static void clofun147(struct Cora* co, int label, Obj *R) {
+static void clofun150(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun146, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun149, 2, 0));
 return;
 }
 }
 }
 
-static void clofun146(struct Cora* co, int label, Obj *R) {
+static void clofun149(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -742,49 +747,49 @@ return;
 }
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317978_25 = makeNative(co->gc, 1, clofun142, 0, 1, closureRef(R[0], 0));
-Obj v_2319797_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319797_25) {
-Obj v_2319798_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319799_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319798_25);
-if (True == v_2319799_25) {
-Obj v_2319800_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319800_25;
-Obj v_2319801_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
+Obj v_2318076_25 = makeNative(co->gc, 1, clofun145, 0, 1, closureRef(R[0], 0));
+Obj v_2319914_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319914_25) {
+Obj v_2319915_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319916_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319915_25);
+if (True == v_2319916_25) {
+Obj v_2319917_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319917_25;
+Obj v_2319918_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319801_25, makeNative(co->gc, 2, clofun144, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319918_25, makeNative(co->gc, 2, clofun147, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317978_25);
+coraCall0(co, v_2318076_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317978_25);
+coraCall0(co, v_2318076_25);
 return;
 }
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun146, 2, 0));
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -797,39 +802,39 @@ return;
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319794_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2319911_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2319794_25, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2319911_25, Nil, Nil, makeNative(co->gc, 3, clofun144, 2, 0));
 return;
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_type = R[1];
 Obj v_code = R[2];
-saveCont(co, clofun141, 1, R);
+saveCont(co, clofun144, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj v_2319795_25= co->res;
-Obj v_2319796_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319795_25);
-coraReturn(co, v_2319796_25);
+Obj v_2319912_25= co->res;
+Obj v_2319913_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319912_25);
+coraReturn(co, v_2319913_25);
 return;
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -837,7 +842,7 @@ Obj v_type = R[1];
 Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_type, v_code);
 return;
 } else {
 coraReturn(co, v_code);
@@ -847,219 +852,219 @@ return;
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317969_25 = R[1];
-Obj v_2317970_25 = R[2];
-Obj v_2317971_25 = makeNative(co->gc, 2, clofun138, 0, 2, v_2317969_25, v_2317970_25);
-Obj v_2319780_25 = PRIM_ISCONS(v_2317969_25);
-if (True == v_2319780_25) {
-Obj v_2319781_25 = PRIM_CAR(v_2317969_25);
-Obj v_2319782_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319781_25);
-if (True == v_2319782_25) {
-Obj v_2319783_25 = PRIM_CDR(v_2317969_25);
-Obj v_2319784_25 = PRIM_ISCONS(v_2319783_25);
-if (True == v_2319784_25) {
-Obj v_2319785_25 = PRIM_CDR(v_2317969_25);
-Obj v_2319786_25 = PRIM_CAR(v_2319785_25);
-Obj v_name = v_2319786_25;
-Obj v_2319787_25 = PRIM_CDR(v_2317969_25);
-Obj v_2319788_25 = PRIM_CDR(v_2319787_25);
-Obj v_more = v_2319788_25;
+Obj v_2318067_25 = R[1];
+Obj v_2318068_25 = R[2];
+Obj v_2318069_25 = makeNative(co->gc, 2, clofun141, 0, 2, v_2318067_25, v_2318068_25);
+Obj v_2319897_25 = PRIM_ISCONS(v_2318067_25);
+if (True == v_2319897_25) {
+Obj v_2319898_25 = PRIM_CAR(v_2318067_25);
+Obj v_2319899_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319898_25);
+if (True == v_2319899_25) {
+Obj v_2319900_25 = PRIM_CDR(v_2318067_25);
+Obj v_2319901_25 = PRIM_ISCONS(v_2319900_25);
+if (True == v_2319901_25) {
+Obj v_2319902_25 = PRIM_CDR(v_2318067_25);
+Obj v_2319903_25 = PRIM_CAR(v_2319902_25);
+Obj v_name = v_2319903_25;
+Obj v_2319904_25 = PRIM_CDR(v_2318067_25);
+Obj v_2319905_25 = PRIM_CDR(v_2319904_25);
+Obj v_more = v_2319905_25;
 R[1] = v_name;
-saveCont(co, clofun139, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2317970_25);
+saveCont(co, clofun142, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2318068_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318069_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318069_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318069_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319789_25= co->res;
+Obj v_2319906_25= co->res;
 Obj v_name = R[1];
-Obj v_2319790_25 = makeCons(co->gc, v_name, v_2319789_25);
-Obj v_2319791_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2319790_25);
-coraReturn(co, v_2319791_25);
+Obj v_2319907_25 = makeCons(co->gc, v_name, v_2319906_25);
+Obj v_2319908_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2319907_25);
+coraReturn(co, v_2319908_25);
 return;
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317972_25 = makeNative(co->gc, 2, clofun137, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319759_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319759_25) {
-Obj v_2319760_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319761_25 = PRIM_ISCONS(v_2319760_25);
-if (True == v_2319761_25) {
-Obj v_2319762_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319763_25 = PRIM_CAR(v_2319762_25);
-Obj v_2319764_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319763_25);
-if (True == v_2319764_25) {
-Obj v_2319765_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319766_25 = PRIM_CDR(v_2319765_25);
-Obj v_2319767_25 = PRIM_ISCONS(v_2319766_25);
-if (True == v_2319767_25) {
-Obj v_2319768_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319769_25 = PRIM_CDR(v_2319768_25);
-Obj v_2319770_25 = PRIM_CAR(v_2319769_25);
-Obj v_pkg = v_2319770_25;
-Obj v_2319771_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319772_25 = PRIM_CDR(v_2319771_25);
-Obj v_2319773_25 = PRIM_CDR(v_2319772_25);
-Obj v_2319774_25 = PRIM_EQ(Nil, v_2319773_25);
-if (True == v_2319774_25) {
-Obj v_2319775_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319775_25;
-Obj v_2319776_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2319777_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2319776_25);
-R[1] = v_2319777_25;
-saveCont(co, clofun138, 1, R);
+Obj v_2318070_25 = makeNative(co->gc, 2, clofun140, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319876_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319876_25) {
+Obj v_2319877_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319878_25 = PRIM_ISCONS(v_2319877_25);
+if (True == v_2319878_25) {
+Obj v_2319879_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319880_25 = PRIM_CAR(v_2319879_25);
+Obj v_2319881_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319880_25);
+if (True == v_2319881_25) {
+Obj v_2319882_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319883_25 = PRIM_CDR(v_2319882_25);
+Obj v_2319884_25 = PRIM_ISCONS(v_2319883_25);
+if (True == v_2319884_25) {
+Obj v_2319885_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319886_25 = PRIM_CDR(v_2319885_25);
+Obj v_2319887_25 = PRIM_CAR(v_2319886_25);
+Obj v_pkg = v_2319887_25;
+Obj v_2319888_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319889_25 = PRIM_CDR(v_2319888_25);
+Obj v_2319890_25 = PRIM_CDR(v_2319889_25);
+Obj v_2319891_25 = PRIM_EQ(Nil, v_2319890_25);
+if (True == v_2319891_25) {
+Obj v_2319892_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319892_25;
+Obj v_2319893_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2319894_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2319893_25);
+R[1] = v_2319894_25;
+saveCont(co, clofun141, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319778_25= co->res;
-Obj v_2319777_25 = R[1];
-Obj v_2319779_25 = makeCons(co->gc, v_2319777_25, v_2319778_25);
-coraReturn(co, v_2319779_25);
+Obj v_2319895_25= co->res;
+Obj v_2319894_25 = R[1];
+Obj v_2319896_25 = makeCons(co->gc, v_2319894_25, v_2319895_25);
+coraReturn(co, v_2319896_25);
 return;
 }
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317973_25 = makeNative(co->gc, 1, clofun136, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319747_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319747_25) {
-Obj v_2319748_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319749_25 = PRIM_ISCONS(v_2319748_25);
-if (True == v_2319749_25) {
-Obj v_2319750_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319751_25 = PRIM_CAR(v_2319750_25);
-Obj v_2319752_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319751_25);
-if (True == v_2319752_25) {
-Obj v_2319753_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319754_25 = PRIM_CDR(v_2319753_25);
-Obj v_symbols = v_2319754_25;
-Obj v_2319755_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319755_25;
-Obj v_2319756_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
-R[1] = v_2319756_25;
-saveCont(co, clofun137, 1, R);
+Obj v_2318071_25 = makeNative(co->gc, 1, clofun139, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319864_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319864_25) {
+Obj v_2319865_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319866_25 = PRIM_ISCONS(v_2319865_25);
+if (True == v_2319866_25) {
+Obj v_2319867_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319868_25 = PRIM_CAR(v_2319867_25);
+Obj v_2319869_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319868_25);
+if (True == v_2319869_25) {
+Obj v_2319870_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319871_25 = PRIM_CDR(v_2319870_25);
+Obj v_symbols = v_2319871_25;
+Obj v_2319872_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319872_25;
+Obj v_2319873_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2319873_25;
+saveCont(co, clofun140, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317973_25);
+coraCall0(co, v_2318071_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317973_25);
+coraCall0(co, v_2318071_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317973_25);
+coraCall0(co, v_2318071_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319757_25= co->res;
-Obj v_2319756_25 = R[1];
-Obj v_2319758_25 = makeCons(co->gc, v_2319756_25, v_2319757_25);
-coraReturn(co, v_2319758_25);
+Obj v_2319874_25= co->res;
+Obj v_2319873_25 = R[1];
+Obj v_2319875_25 = makeCons(co->gc, v_2319873_25, v_2319874_25);
+coraReturn(co, v_2319875_25);
 return;
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317974_25 = makeNative(co->gc, 1, clofun135, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2319741_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319741_25) {
-Obj v_2319742_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319743_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319742_25);
-if (True == v_2319743_25) {
-Obj v_2319744_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319744_25;
-saveCont(co, clofun136, 1, R);
+Obj v_2318072_25 = makeNative(co->gc, 1, clofun138, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2319858_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319858_25) {
+Obj v_2319859_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319860_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319859_25);
+if (True == v_2319860_25) {
+Obj v_2319861_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319861_25;
+saveCont(co, clofun139, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317974_25);
+coraCall0(co, v_2318072_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317974_25);
+coraCall0(co, v_2318072_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319745_25= co->res;
-Obj v_2319746_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319745_25);
-coraReturn(co, v_2319746_25);
+Obj v_2319862_25= co->res;
+Obj v_2319863_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319862_25);
+coraReturn(co, v_2319863_25);
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1070,329 +1075,329 @@ return;
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317961_25 = R[1];
-Obj v_2317962_25 = R[2];
-Obj v_2317963_25 = R[3];
-Obj v_2317964_25 = R[4];
-Obj v_2319702_25 = PRIM_EQ(Nil, v_2317961_25);
-if (True == v_2319702_25) {
-R[1] = v_2317963_25;
-R[2] = v_2317964_25;
-saveCont(co, clofun134, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317962_25);
+Obj v_2318059_25 = R[1];
+Obj v_2318060_25 = R[2];
+Obj v_2318061_25 = R[3];
+Obj v_2318062_25 = R[4];
+Obj v_2319819_25 = PRIM_EQ(Nil, v_2318059_25);
+if (True == v_2319819_25) {
+R[1] = v_2318061_25;
+R[2] = v_2318062_25;
+saveCont(co, clofun137, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318060_25);
 return;
 } else {
-Obj v_2317966_25 = makeNative(co->gc, 1, clofun133, 0, 4, v_2317961_25, v_2317962_25, v_2317963_25, v_2317964_25);
-Obj v_2319729_25 = PRIM_ISCONS(v_2317961_25);
-if (True == v_2319729_25) {
-Obj v_2319730_25 = PRIM_CAR(v_2317961_25);
-Obj v_2319731_25 = PRIM_ISCONS(v_2319730_25);
-if (True == v_2319731_25) {
-Obj v_2319732_25 = PRIM_CAR(v_2317961_25);
-Obj v_2319733_25 = PRIM_CAR(v_2319732_25);
-Obj v_2319734_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319733_25);
-if (True == v_2319734_25) {
-Obj v_2319735_25 = PRIM_CAR(v_2317961_25);
-Obj v_2319736_25 = PRIM_CDR(v_2319735_25);
-Obj v_exp = v_2319736_25;
-Obj v_2319737_25 = PRIM_CDR(v_2317961_25);
-Obj v_more = v_2319737_25;
-Obj v_2319738_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
-Obj v_2319739_25 = makeCons(co->gc, v_2319738_25, v_2317962_25);
+Obj v_2318064_25 = makeNative(co->gc, 1, clofun136, 0, 4, v_2318059_25, v_2318060_25, v_2318061_25, v_2318062_25);
+Obj v_2319846_25 = PRIM_ISCONS(v_2318059_25);
+if (True == v_2319846_25) {
+Obj v_2319847_25 = PRIM_CAR(v_2318059_25);
+Obj v_2319848_25 = PRIM_ISCONS(v_2319847_25);
+if (True == v_2319848_25) {
+Obj v_2319849_25 = PRIM_CAR(v_2318059_25);
+Obj v_2319850_25 = PRIM_CAR(v_2319849_25);
+Obj v_2319851_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319850_25);
+if (True == v_2319851_25) {
+Obj v_2319852_25 = PRIM_CAR(v_2318059_25);
+Obj v_2319853_25 = PRIM_CDR(v_2319852_25);
+Obj v_exp = v_2319853_25;
+Obj v_2319854_25 = PRIM_CDR(v_2318059_25);
+Obj v_more = v_2319854_25;
+Obj v_2319855_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2319856_25 = makeCons(co->gc, v_2319855_25, v_2318060_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319739_25, v_2317963_25, v_2317964_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319856_25, v_2318061_25, v_2318062_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317966_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317966_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317966_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319704_25= co->res;
-Obj v_2317964_25 = R[1];
-Obj v_2319703_25 = R[2];
+Obj v_2319821_25= co->res;
+Obj v_2318062_25 = R[1];
+Obj v_2319820_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2317964_25, v_2319703_25, v_2319704_25);
+coraCall2(co, v_2318062_25, v_2319820_25, v_2319821_25);
 return;
 }
 case 2:
 {
-Obj v_2319703_25= co->res;
-Obj v_2317963_25 = R[1];
-Obj v_2317964_25 = R[2];
-R[1] = v_2317964_25;
-R[2] = v_2319703_25;
-saveCont(co, clofun134, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317963_25);
+Obj v_2319820_25= co->res;
+Obj v_2318061_25 = R[1];
+Obj v_2318062_25 = R[2];
+R[1] = v_2318062_25;
+R[2] = v_2319820_25;
+saveCont(co, clofun137, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318061_25);
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317967_25 = makeNative(co->gc, 1, clofun132, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2319718_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319718_25) {
-Obj v_2319719_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319720_25 = PRIM_ISCONS(v_2319719_25);
-if (True == v_2319720_25) {
-Obj v_2319721_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319722_25 = PRIM_CAR(v_2319721_25);
-Obj v_2319723_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319722_25);
-if (True == v_2319723_25) {
-Obj v_2319724_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319725_25 = PRIM_CDR(v_2319724_25);
-Obj v_exp = v_2319725_25;
-Obj v_2319726_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319726_25;
-Obj v_2319727_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
-Obj v_2319728_25 = makeCons(co->gc, v_2319727_25, closureRef(R[0], 1));
+Obj v_2318065_25 = makeNative(co->gc, 1, clofun135, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2319835_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319835_25) {
+Obj v_2319836_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319837_25 = PRIM_ISCONS(v_2319836_25);
+if (True == v_2319837_25) {
+Obj v_2319838_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319839_25 = PRIM_CAR(v_2319838_25);
+Obj v_2319840_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319839_25);
+if (True == v_2319840_25) {
+Obj v_2319841_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319842_25 = PRIM_CDR(v_2319841_25);
+Obj v_exp = v_2319842_25;
+Obj v_2319843_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319843_25;
+Obj v_2319844_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2319845_25 = makeCons(co->gc, v_2319844_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319728_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319845_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317967_25);
+coraCall0(co, v_2318065_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317967_25);
+coraCall0(co, v_2318065_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317967_25);
+coraCall0(co, v_2318065_25);
 return;
 }
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319705_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319705_25) {
-Obj v_2319706_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_exp = v_2319706_25;
-Obj v_2319707_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319707_25;
-Obj v_2319708_25 = makeCons(co->gc, v_exp, Nil);
-Obj v_2319709_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319708_25);
-Obj v_2319710_25 = makeCons(co->gc, v_2319709_25, Nil);
-Obj v_2319711_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319710_25);
-Obj v_2319712_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v_2319713_25 = makeCons(co->gc, v_2319712_25, Nil);
-Obj v_2319714_25 = makeCons(co->gc, v_2319711_25, v_2319713_25);
-Obj v_2319715_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319714_25);
-Obj v_2319716_25 = makeCons(co->gc, v_2319715_25, closureRef(R[0], 1));
-Obj v_2319717_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
+Obj v_2319822_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319822_25) {
+Obj v_2319823_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2319823_25;
+Obj v_2319824_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319824_25;
+Obj v_2319825_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2319826_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319825_25);
+Obj v_2319827_25 = makeCons(co->gc, v_2319826_25, Nil);
+Obj v_2319828_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319827_25);
+Obj v_2319829_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2319830_25 = makeCons(co->gc, v_2319829_25, Nil);
+Obj v_2319831_25 = makeCons(co->gc, v_2319828_25, v_2319830_25);
+Obj v_2319832_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319831_25);
+Obj v_2319833_25 = makeCons(co->gc, v_2319832_25, closureRef(R[0], 1));
+Obj v_2319834_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319716_25, v_2319717_25, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319833_25, v_2319834_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317955_25 = R[1];
-Obj v_2317956_25 = makeNative(co->gc, 1, clofun130, 0, 1, v_2317955_25);
-Obj v_2319692_25 = PRIM_ISCONS(v_2317955_25);
-if (True == v_2319692_25) {
-Obj v_2319693_25 = PRIM_CAR(v_2317955_25);
-Obj v_2319694_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319693_25);
-if (True == v_2319694_25) {
-Obj v_2319695_25 = PRIM_CDR(v_2317955_25);
-Obj v_2319696_25 = PRIM_ISCONS(v_2319695_25);
-if (True == v_2319696_25) {
-Obj v_2319697_25 = PRIM_CDR(v_2317955_25);
-Obj v_2319698_25 = PRIM_CAR(v_2319697_25);
-Obj v_2319699_25 = PRIM_CDR(v_2317955_25);
-Obj v_2319700_25 = PRIM_CDR(v_2319699_25);
-Obj v_remain = v_2319700_25;
+Obj v_2318053_25 = R[1];
+Obj v_2318054_25 = makeNative(co->gc, 1, clofun133, 0, 1, v_2318053_25);
+Obj v_2319809_25 = PRIM_ISCONS(v_2318053_25);
+if (True == v_2319809_25) {
+Obj v_2319810_25 = PRIM_CAR(v_2318053_25);
+Obj v_2319811_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319810_25);
+if (True == v_2319811_25) {
+Obj v_2319812_25 = PRIM_CDR(v_2318053_25);
+Obj v_2319813_25 = PRIM_ISCONS(v_2319812_25);
+if (True == v_2319813_25) {
+Obj v_2319814_25 = PRIM_CDR(v_2318053_25);
+Obj v_2319815_25 = PRIM_CAR(v_2319814_25);
+Obj v_2319816_25 = PRIM_CDR(v_2318053_25);
+Obj v_2319817_25 = PRIM_CDR(v_2319816_25);
+Obj v_remain = v_2319817_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317956_25);
+coraCall0(co, v_2318054_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317956_25);
+coraCall0(co, v_2318054_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317956_25);
+coraCall0(co, v_2318054_25);
 return;
 }
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317957_25 = makeNative(co->gc, 1, clofun129, 0, 1, closureRef(R[0], 0));
-Obj v_2319688_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319688_25) {
-Obj v_2319689_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319690_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319689_25);
-if (True == v_2319690_25) {
-Obj v_2319691_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319691_25;
+Obj v_2318055_25 = makeNative(co->gc, 1, clofun132, 0, 1, closureRef(R[0], 0));
+Obj v_2319805_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319805_25) {
+Obj v_2319806_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319807_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319806_25);
+if (True == v_2319807_25) {
+Obj v_2319808_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319808_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317957_25);
+coraCall0(co, v_2318055_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317957_25);
+coraCall0(co, v_2318055_25);
 return;
 }
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317958_25 = makeNative(co->gc, 2, clofun128, 0, 1, closureRef(R[0], 0));
-Obj v_2319679_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319679_25) {
-Obj v_2319680_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319681_25 = PRIM_ISCONS(v_2319680_25);
-if (True == v_2319681_25) {
-Obj v_2319682_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319683_25 = PRIM_CAR(v_2319682_25);
-Obj v_2319684_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319683_25);
-if (True == v_2319684_25) {
-Obj v_2319685_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319686_25 = PRIM_CDR(v_2319685_25);
-Obj v_2319687_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319687_25;
+Obj v_2318056_25 = makeNative(co->gc, 2, clofun131, 0, 1, closureRef(R[0], 0));
+Obj v_2319796_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319796_25) {
+Obj v_2319797_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319798_25 = PRIM_ISCONS(v_2319797_25);
+if (True == v_2319798_25) {
+Obj v_2319799_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319800_25 = PRIM_CAR(v_2319799_25);
+Obj v_2319801_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319800_25);
+if (True == v_2319801_25) {
+Obj v_2319802_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319803_25 = PRIM_CDR(v_2319802_25);
+Obj v_2319804_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319804_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317958_25);
+coraCall0(co, v_2318056_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317958_25);
+coraCall0(co, v_2318056_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317958_25);
+coraCall0(co, v_2318056_25);
 return;
 }
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317959_25 = makeNative(co->gc, 1, clofun127, 0, 0);
-Obj v_2319661_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319661_25) {
-Obj v_2319662_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319663_25 = PRIM_ISCONS(v_2319662_25);
-if (True == v_2319663_25) {
-Obj v_2319664_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319665_25 = PRIM_CAR(v_2319664_25);
-Obj v_2319666_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319665_25);
-if (True == v_2319666_25) {
-Obj v_2319667_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319668_25 = PRIM_CDR(v_2319667_25);
-Obj v_2319669_25 = PRIM_ISCONS(v_2319668_25);
-if (True == v_2319669_25) {
-Obj v_2319670_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319671_25 = PRIM_CDR(v_2319670_25);
-Obj v_2319672_25 = PRIM_CAR(v_2319671_25);
-Obj v_pkg = v_2319672_25;
-Obj v_2319673_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319674_25 = PRIM_CDR(v_2319673_25);
-Obj v_2319675_25 = PRIM_CDR(v_2319674_25);
-Obj v_2319676_25 = PRIM_EQ(Nil, v_2319675_25);
-if (True == v_2319676_25) {
-Obj v_2319677_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319677_25;
+Obj v_2318057_25 = makeNative(co->gc, 1, clofun130, 0, 0);
+Obj v_2319778_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319778_25) {
+Obj v_2319779_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319780_25 = PRIM_ISCONS(v_2319779_25);
+if (True == v_2319780_25) {
+Obj v_2319781_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319782_25 = PRIM_CAR(v_2319781_25);
+Obj v_2319783_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319782_25);
+if (True == v_2319783_25) {
+Obj v_2319784_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319785_25 = PRIM_CDR(v_2319784_25);
+Obj v_2319786_25 = PRIM_ISCONS(v_2319785_25);
+if (True == v_2319786_25) {
+Obj v_2319787_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319788_25 = PRIM_CDR(v_2319787_25);
+Obj v_2319789_25 = PRIM_CAR(v_2319788_25);
+Obj v_pkg = v_2319789_25;
+Obj v_2319790_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319791_25 = PRIM_CDR(v_2319790_25);
+Obj v_2319792_25 = PRIM_CDR(v_2319791_25);
+Obj v_2319793_25 = PRIM_EQ(Nil, v_2319792_25);
+if (True == v_2319793_25) {
+Obj v_2319794_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319794_25;
 R[1] = v_remain;
-saveCont(co, clofun128, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), v_pkg);
+saveCont(co, clofun131, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319678_25= co->res;
+Obj v_2319795_25= co->res;
 Obj v_remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
@@ -1401,7 +1406,7 @@ return;
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1411,7 +1416,7 @@ return;
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1421,133 +1426,133 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 9, R);
+saveCont(co, clofun129, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v_2319659_25= co->res;
+Obj v_2319776_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun125, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun128, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj v_2319658_25= co->res;
-Obj v_2319655_25 = R[1];
+Obj v_2319775_25= co->res;
+Obj v_2319772_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319655_25, v_2319658_25);
+saveCont(co, clofun129, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319772_25, v_2319775_25);
 return;
 }
 case 3:
 {
-Obj v_2319656_25= co->res;
-Obj v_2319655_25 = R[1];
+Obj v_2319773_25= co->res;
+Obj v_2319772_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
-Obj v_2319657_25 = PRIM_CAR(v_2319656_25);
-R[1] = v_2319655_25;
+Obj v_2319774_25 = PRIM_CAR(v_2319773_25);
+R[1] = v_2319772_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319657_25);
+saveCont(co, clofun129, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319774_25);
 return;
 }
 case 4:
 {
-Obj v_2319655_25= co->res;
+Obj v_2319772_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-R[1] = v_2319655_25;
+R[1] = v_2319772_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun126, 3, R);
+saveCont(co, clofun129, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 23)), v_bc);
 return;
 }
 case 5:
 {
-Obj v_2319654_25= co->res;
+Obj v_2319771_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 4, R);
+saveCont(co, clofun129, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), v_bc);
 return;
 }
 case 6:
 {
-Obj v_2319653_25= co->res;
+Obj v_2319770_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 5, R);
+saveCont(co, clofun129, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v_2319650_25= co->res;
+Obj v_2319767_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun124, 1, 1, v_to), v_bc);
+saveCont(co, clofun129, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), makeNative(co->gc, 2, clofun127, 1, 1, v_to), v_bc);
 return;
 }
 case 8:
 {
-Obj v_2319649_25= co->res;
+Obj v_2319766_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 7, R);
+saveCont(co, clofun129, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj v_2319648_25= co->res;
+Obj v_2319765_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun126, 8, R);
+saveCont(co, clofun129, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1559,19 +1564,19 @@ return;
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v_2319651_25 = PRIM_CAR(v_group);
-saveCont(co, clofun124, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319651_25);
+Obj v_2319768_25 = PRIM_CAR(v_group);
+saveCont(co, clofun127, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319768_25);
 return;
 }
 case 1:
 {
-Obj v_2319652_25= co->res;
+Obj v_2319769_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1579,7 +1584,7 @@ return;
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1591,13 +1596,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun123, 14, R);
+saveCont(co, clofun126, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v_2319646_25= co->res;
+Obj v_2319763_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1605,86 +1610,86 @@ return;
 }
 case 2:
 {
-Obj v_2319645_25= co->res;
+Obj v_2319762_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun123, 1, R);
+saveCont(co, clofun126, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2319644_25= co->res;
+Obj v_2319761_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
-saveCont(co, clofun123, 2, R);
+saveCont(co, clofun126, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj v_2319643_25= co->res;
+Obj v_2319760_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun123, 3, R);
+saveCont(co, clofun126, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v_2319642_25= co->res;
+Obj v_2319759_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun123, 4, R);
+saveCont(co, clofun126, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v_2319641_25= co->res;
+Obj v_2319758_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun123, 5, R);
+saveCont(co, clofun126, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_nframe);
 return;
 }
 case 7:
 {
-Obj v_2319640_25= co->res;
+Obj v_2319757_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun123, 6, R);
+saveCont(co, clofun126, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 8:
 {
-Obj v_2319639_25= co->res;
+Obj v_2319756_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun123, 7, R);
+saveCont(co, clofun126, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 9:
 {
-Obj v_2319630_25= co->res;
+Obj v_2319747_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1692,13 +1697,13 @@ Obj v_to = R[4];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun123, 8, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun122, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+saveCont(co, clofun126, 8, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun125, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 10:
 {
-Obj v_2319629_25= co->res;
+Obj v_2319746_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1707,13 +1712,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun123, 9, R);
+saveCont(co, clofun126, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 11:
 {
-Obj v_2319628_25= co->res;
+Obj v_2319745_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1722,13 +1727,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun123, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319628_25);
+saveCont(co, clofun126, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319745_25);
 return;
 }
 case 12:
 {
-Obj v_2319627_25= co->res;
+Obj v_2319744_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1737,13 +1742,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun123, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_globals);
+saveCont(co, clofun126, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_globals);
 return;
 }
 case 13:
 {
-Obj v_2319626_25= co->res;
+Obj v_2319743_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1752,13 +1757,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun123, 12, R);
+saveCont(co, clofun126, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 14:
 {
-Obj v_2319625_25= co->res;
+Obj v_2319742_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1767,14 +1772,14 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun123, 13, R);
+saveCont(co, clofun126, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1782,99 +1787,99 @@ Obj v_acc = R[1];
 Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun122, 7, R);
+saveCont(co, clofun125, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v_2319637_25= co->res;
+Obj v_2319754_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319638_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319638_25);
+Obj v_2319755_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319755_25);
 return;
 }
 case 2:
 {
-Obj v_2319636_25= co->res;
+Obj v_2319753_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun122, 1, R);
+saveCont(co, clofun125, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v_2319635_25= co->res;
+Obj v_2319752_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun122, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319635_25);
+saveCont(co, clofun125, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319752_25);
 return;
 }
 case 4:
 {
-Obj v_2319634_25= co->res;
+Obj v_2319751_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun122, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319634_25);
+saveCont(co, clofun125, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319751_25);
 return;
 }
 case 5:
 {
-Obj v_2319633_25= co->res;
+Obj v_2319750_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun122, 4, R);
+saveCont(co, clofun125, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 25)), v_sym);
 return;
 }
 case 6:
 {
-Obj v_2319632_25= co->res;
+Obj v_2319749_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun122, 5, R);
+saveCont(co, clofun125, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v_2319631_25= co->res;
+Obj v_2319748_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun122, 6, R);
+saveCont(co, clofun125, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v_2319603_25 = PRIM_CAR(v_group);
-Obj v_label = v_2319603_25;
+Obj v_2319720_25 = PRIM_CAR(v_group);
+Obj v_label = v_2319720_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun121, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_group);
+saveCont(co, clofun124, 13, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_group);
 return;
 }
 case 1:
 {
-Obj v_2319623_25= co->res;
+Obj v_2319740_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1882,28 +1887,28 @@ return;
 }
 case 2:
 {
-Obj v_2319622_25= co->res;
+Obj v_2319739_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun121, 1, R);
+saveCont(co, clofun124, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2319621_25= co->res;
+Obj v_2319738_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
-saveCont(co, clofun121, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun120, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319621_25);
+saveCont(co, clofun124, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun123, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319738_25);
 return;
 }
 case 4:
 {
-Obj v_2319613_25= co->res;
+Obj v_2319730_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1912,13 +1917,13 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun121, 3, R);
+saveCont(co, clofun124, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 5:
 {
-Obj v_2319612_25= co->res;
+Obj v_2319729_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1927,13 +1932,13 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun121, 4, R);
+saveCont(co, clofun124, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v_2319611_25= co->res;
+Obj v_2319728_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1944,14 +1949,14 @@ R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun121, 5, R);
+saveCont(co, clofun124, 5, R);
 Obj __args[5] = {v_globals, v_label, v_params, v_to, v_first_2dstmt};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2319610_25= co->res;
+Obj v_2319727_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1964,14 +1969,14 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun121, 6, R);
+saveCont(co, clofun124, 6, R);
 Obj __args[5] = {v_globals, v_label, Nil, v_to, v_params};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v_2319609_25= co->res;
+Obj v_2319726_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1984,13 +1989,13 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun121, 7, R);
+saveCont(co, clofun124, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v_2319608_25= co->res;
+Obj v_2319725_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2003,13 +2008,13 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun121, 8, R);
+saveCont(co, clofun124, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v_2319607_25= co->res;
+Obj v_2319724_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2022,65 +2027,65 @@ R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun121, 9, R);
+saveCont(co, clofun124, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v_2319606_25= co->res;
+Obj v_2319723_25= co->res;
 Obj v_params = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
 Obj v_lam = R[4];
 Obj v_to = R[5];
-Obj v_first_2dstmt = v_2319606_25;
+Obj v_first_2dstmt = v_2319723_25;
 R[1] = v_params;
 R[2] = v_first_2dstmt;
 R[3] = v_globals;
 R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
-saveCont(co, clofun121, 10, R);
+saveCont(co, clofun124, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), v_to, v_label);
 return;
 }
 case 12:
 {
-Obj v_2319605_25= co->res;
+Obj v_2319722_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
-Obj v_params = v_2319605_25;
+Obj v_params = v_2319722_25;
 R[1] = v_params;
 R[2] = v_globals;
 R[3] = v_label;
 R[4] = v_lam;
 R[5] = v_to;
-saveCont(co, clofun121, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_lam);
+saveCont(co, clofun124, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v_lam);
 return;
 }
 case 13:
 {
-Obj v_2319604_25= co->res;
+Obj v_2319721_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-Obj v_lam = v_2319604_25;
+Obj v_lam = v_2319721_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
-saveCont(co, clofun121, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_lam);
+saveCont(co, clofun124, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_lam);
 return;
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2088,222 +2093,222 @@ Obj v_acc = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun120, 6, R);
+saveCont(co, clofun123, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v_2319619_25= co->res;
+Obj v_2319736_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319620_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319620_25);
+Obj v_2319737_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319737_25);
 return;
 }
 case 2:
 {
-Obj v_2319618_25= co->res;
+Obj v_2319735_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun120, 1, R);
+saveCont(co, clofun123, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v_2319617_25= co->res;
+Obj v_2319734_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun120, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319617_25, closureRef(R[0], 3), v_cont};
+saveCont(co, clofun123, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319734_25, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 41)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2319616_25= co->res;
+Obj v_2319733_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun120, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), closureRef(R[0], 2));
+saveCont(co, clofun123, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v_2319615_25= co->res;
+Obj v_2319732_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun120, 4, R);
+saveCont(co, clofun123, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v_2319614_25= co->res;
+Obj v_2319731_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun120, 5, R);
+saveCont(co, clofun123, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317951_25 = R[1];
-Obj v_2317952_25 = R[2];
-Obj v_2319597_25 = PRIM_EQ(Nil, v_2317952_25);
-if (True == v_2319597_25) {
+Obj v_2318049_25 = R[1];
+Obj v_2318050_25 = R[2];
+Obj v_2319714_25 = PRIM_EQ(Nil, v_2318050_25);
+if (True == v_2319714_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319598_25 = PRIM_ISCONS(v_2317952_25);
-if (True == v_2319598_25) {
-Obj v_2319599_25 = PRIM_CAR(v_2317952_25);
-Obj v_x = v_2319599_25;
-Obj v_2319600_25 = PRIM_CDR(v_2317952_25);
-Obj v_y = v_2319600_25;
-R[1] = v_2317951_25;
+Obj v_2319715_25 = PRIM_ISCONS(v_2318050_25);
+if (True == v_2319715_25) {
+Obj v_2319716_25 = PRIM_CAR(v_2318050_25);
+Obj v_x = v_2319716_25;
+Obj v_2319717_25 = PRIM_CDR(v_2318050_25);
+Obj v_y = v_2319717_25;
+R[1] = v_2318049_25;
 R[2] = v_y;
-saveCont(co, clofun119, 1, R);
-coraCall1(co, v_2317951_25, v_x);
+saveCont(co, clofun122, 1, R);
+coraCall1(co, v_2318049_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319601_25= co->res;
-Obj v_2317951_25 = R[1];
+Obj v_2319718_25= co->res;
+Obj v_2318049_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2317951_25, v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2318049_25, v_y);
 return;
 }
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun118, 5, R);
+saveCont(co, clofun121, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2319595_25= co->res;
+Obj v_2319712_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319595_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319712_25);
 return;
 }
 case 2:
 {
-Obj v_2319594_25= co->res;
-saveCont(co, clofun118, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319594_25);
+Obj v_2319711_25= co->res;
+saveCont(co, clofun121, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319711_25);
 return;
 }
 case 3:
 {
-Obj v_2319593_25= co->res;
-saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319593_25);
+Obj v_2319710_25= co->res;
+saveCont(co, clofun121, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319710_25);
 return;
 }
 case 4:
 {
-Obj v_2319592_25= co->res;
-saveCont(co, clofun118, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319592_25);
+Obj v_2319709_25= co->res;
+saveCont(co, clofun121, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319709_25);
 return;
 }
 case 5:
 {
-Obj v_2319591_25= co->res;
+Obj v_2319708_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun118, 4, R);
-coraCall1(co, v_2319591_25, v_exp);
+saveCont(co, clofun121, 4, R);
+coraCall1(co, v_2319708_25, v_exp);
 return;
 }
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun117, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_exp);
+saveCont(co, clofun120, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2319589_25= co->res;
+Obj v_2319706_25= co->res;
 Obj v_obj = R[1];
-Obj v_fns = v_2319589_25;
+Obj v_fns = v_2319706_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj v_2319588_25= co->res;
+Obj v_2319705_25= co->res;
 Obj v_exp = R[1];
-Obj v_obj = v_2319588_25;
+Obj v_obj = v_2319705_25;
 R[1] = v_obj;
-saveCont(co, clofun117, 1, R);
+saveCont(co, clofun120, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v_exp);
 return;
 }
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317947_25 = R[1];
-Obj v_2317948_25 = R[2];
-Obj v_2319581_25 = PRIM_EQ(Nil, v_2317948_25);
-if (True == v_2319581_25) {
-coraReturn(co, v_2317947_25);
+Obj v_2318045_25 = R[1];
+Obj v_2318046_25 = R[2];
+Obj v_2319698_25 = PRIM_EQ(Nil, v_2318046_25);
+if (True == v_2319698_25) {
+coraReturn(co, v_2318045_25);
 return;
 } else {
-Obj v_2319582_25 = PRIM_ISCONS(v_2317948_25);
-if (True == v_2319582_25) {
-Obj v_2319583_25 = PRIM_CAR(v_2317948_25);
-Obj v_hd = v_2319583_25;
-Obj v_2319584_25 = PRIM_CDR(v_2317948_25);
-Obj v_more = v_2319584_25;
-Obj v_2319585_25 = makeCons(co->gc, v_2317947_25, Nil);
-Obj v_2319586_25 = makeCons(co->gc, v_hd, v_2319585_25);
+Obj v_2319699_25 = PRIM_ISCONS(v_2318046_25);
+if (True == v_2319699_25) {
+Obj v_2319700_25 = PRIM_CAR(v_2318046_25);
+Obj v_hd = v_2319700_25;
+Obj v_2319701_25 = PRIM_CDR(v_2318046_25);
+Obj v_more = v_2319701_25;
+Obj v_2319702_25 = makeCons(co->gc, v_2318045_25, Nil);
+Obj v_2319703_25 = makeCons(co->gc, v_hd, v_2319702_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319586_25, v_more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319703_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2311,19 +2316,19 @@ return;
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun118, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v_2319579_25= co->res;
+Obj v_2319696_25= co->res;
 Obj v_v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
@@ -2331,60 +2336,60 @@ return;
 }
 case 2:
 {
-Obj v_2319578_25= co->res;
+Obj v_2319695_25= co->res;
 Obj v_v = R[1];
-Obj v_e2 = v_2319578_25;
+Obj v_e2 = v_2319695_25;
 R[1] = v_v;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun118, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_v, v_e2);
 return;
 }
 case 3:
 {
-Obj v_2319577_25= co->res;
+Obj v_2319694_25= co->res;
 Obj v_v = R[1];
-Obj v_e1 = v_2319577_25;
+Obj v_e1 = v_2319694_25;
 R[1] = v_v;
-saveCont(co, clofun115, 2, R);
+saveCont(co, clofun118, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v_e1);
 return;
 }
 case 4:
 {
-Obj v_2319576_25= co->res;
+Obj v_2319693_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
-saveCont(co, clofun115, 3, R);
+saveCont(co, clofun118, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, v_exp);
 return;
 }
 case 5:
 {
-Obj v_2319575_25= co->res;
+Obj v_2319692_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_exp;
 R[2] = v_v;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun118, 4, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v_2319574_25= co->res;
+Obj v_2319691_25= co->res;
 Obj v_exp = R[1];
-Obj v_v = v_2319574_25;
+Obj v_v = v_2319691_25;
 R[1] = v_exp;
 R[2] = v_v;
-saveCont(co, clofun115, 5, R);
+saveCont(co, clofun118, 5, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2396,7 +2401,7 @@ return;
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2408,7 +2413,7 @@ return;
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2420,23 +2425,23 @@ return;
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
-Obj v_2319568_25 = primGenSym(co);
-Obj v_used = v_2319568_25;
-Obj v_2319569_25 = primSet(co, v_used, Nil);
+Obj v_2319685_25 = primGenSym(co);
+Obj v_used = v_2319685_25;
+Obj v_2319686_25 = primSet(co, v_used, Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), Nil, v_used, v_globals, v_exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), Nil, v_used, v_globals, v_exp);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2444,13 +2449,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
-saveCont(co, clofun110, 3, R);
+saveCont(co, clofun113, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v_2319566_25= co->res;
+Obj v_2319683_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
@@ -2458,27 +2463,27 @@ return;
 }
 case 2:
 {
-Obj v_2319565_25= co->res;
+Obj v_2319682_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
-saveCont(co, clofun110, 1, R);
+saveCont(co, clofun113, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v_2319564_25= co->res;
+Obj v_2319681_25= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
-saveCont(co, clofun110, 2, R);
+saveCont(co, clofun113, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2486,13 +2491,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
-saveCont(co, clofun109, 1, R);
+saveCont(co, clofun112, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v_2319562_25= co->res;
+Obj v_2319679_25= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2502,157 +2507,157 @@ return;
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317941_25 = R[1];
-Obj v_2317942_25 = R[2];
-Obj v_2317943_25 = R[3];
-Obj v_2317944_25 = R[4];
-Obj v_2317945_25 = R[5];
-Obj v_2317946_25 = makeNative(co->gc, 1, clofun107, 0, 0);
-Obj v_2319540_25 = PRIM_ISCONS(v_2317945_25);
-if (True == v_2319540_25) {
-Obj v_2319541_25 = PRIM_CAR(v_2317945_25);
-Obj v_2319542_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319541_25);
-if (True == v_2319542_25) {
-Obj v_2319543_25 = PRIM_CDR(v_2317945_25);
-Obj v_2319544_25 = PRIM_ISCONS(v_2319543_25);
-if (True == v_2319544_25) {
-Obj v_2319545_25 = PRIM_CDR(v_2317945_25);
-Obj v_2319546_25 = PRIM_CAR(v_2319545_25);
-Obj v_var = v_2319546_25;
-Obj v_2319547_25 = PRIM_CDR(v_2317945_25);
-Obj v_2319548_25 = PRIM_CDR(v_2319547_25);
-Obj v_2319549_25 = PRIM_ISCONS(v_2319548_25);
-if (True == v_2319549_25) {
-Obj v_2319550_25 = PRIM_CDR(v_2317945_25);
-Obj v_2319551_25 = PRIM_CDR(v_2319550_25);
-Obj v_2319552_25 = PRIM_CAR(v_2319551_25);
-Obj v_body = v_2319552_25;
-Obj v_2319553_25 = PRIM_CDR(v_2317945_25);
-Obj v_2319554_25 = PRIM_CDR(v_2319553_25);
-Obj v_2319555_25 = PRIM_CDR(v_2319554_25);
-Obj v_fvs = v_2319555_25;
+Obj v_2318039_25 = R[1];
+Obj v_2318040_25 = R[2];
+Obj v_2318041_25 = R[3];
+Obj v_2318042_25 = R[4];
+Obj v_2318043_25 = R[5];
+Obj v_2318044_25 = makeNative(co->gc, 1, clofun110, 0, 0);
+Obj v_2319657_25 = PRIM_ISCONS(v_2318043_25);
+if (True == v_2319657_25) {
+Obj v_2319658_25 = PRIM_CAR(v_2318043_25);
+Obj v_2319659_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319658_25);
+if (True == v_2319659_25) {
+Obj v_2319660_25 = PRIM_CDR(v_2318043_25);
+Obj v_2319661_25 = PRIM_ISCONS(v_2319660_25);
+if (True == v_2319661_25) {
+Obj v_2319662_25 = PRIM_CDR(v_2318043_25);
+Obj v_2319663_25 = PRIM_CAR(v_2319662_25);
+Obj v_var = v_2319663_25;
+Obj v_2319664_25 = PRIM_CDR(v_2318043_25);
+Obj v_2319665_25 = PRIM_CDR(v_2319664_25);
+Obj v_2319666_25 = PRIM_ISCONS(v_2319665_25);
+if (True == v_2319666_25) {
+Obj v_2319667_25 = PRIM_CDR(v_2318043_25);
+Obj v_2319668_25 = PRIM_CDR(v_2319667_25);
+Obj v_2319669_25 = PRIM_CAR(v_2319668_25);
+Obj v_body = v_2319669_25;
+Obj v_2319670_25 = PRIM_CDR(v_2318043_25);
+Obj v_2319671_25 = PRIM_CDR(v_2319670_25);
+Obj v_2319672_25 = PRIM_CDR(v_2319671_25);
+Obj v_fvs = v_2319672_25;
 R[1] = v_var;
 R[2] = v_fvs;
-R[3] = v_2317941_25;
-R[4] = v_2317942_25;
-R[5] = v_2317943_25;
-R[6] = v_2317944_25;
+R[3] = v_2318039_25;
+R[4] = v_2318040_25;
+R[5] = v_2318041_25;
+R[6] = v_2318042_25;
 R[7] = v_body;
-saveCont(co, clofun108, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317944_25, makeCString(co->gc, "Obj "));
+saveCont(co, clofun111, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318042_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317946_25);
+coraCall0(co, v_2318044_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317946_25);
+coraCall0(co, v_2318044_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317946_25);
+coraCall0(co, v_2318044_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317946_25);
+coraCall0(co, v_2318044_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319560_25= co->res;
-Obj v_2317941_25 = R[1];
-Obj v_2317942_25 = R[2];
-Obj v_2317943_25 = R[3];
-Obj v_2317944_25 = R[4];
+Obj v_2319677_25= co->res;
+Obj v_2318039_25 = R[1];
+Obj v_2318040_25 = R[2];
+Obj v_2318041_25 = R[3];
+Obj v_2318042_25 = R[4];
 Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v_2317941_25, v_2317942_25, v_2317943_25, v_2317944_25, v_body};
+Obj __args[5] = {v_2318039_25, v_2318040_25, v_2318041_25, v_2318042_25, v_body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v_2319559_25= co->res;
+Obj v_2319676_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2317941_25 = R[2];
-Obj v_2317942_25 = R[3];
-Obj v_2317943_25 = R[4];
-Obj v_2317944_25 = R[5];
+Obj v_2318039_25 = R[2];
+Obj v_2318040_25 = R[3];
+Obj v_2318041_25 = R[4];
+Obj v_2318042_25 = R[5];
 Obj v_body = R[6];
-R[1] = v_2317941_25;
-R[2] = v_2317942_25;
-R[3] = v_2317943_25;
-R[4] = v_2317944_25;
+R[1] = v_2318039_25;
+R[2] = v_2318040_25;
+R[3] = v_2318041_25;
+R[4] = v_2318042_25;
 R[5] = v_body;
-saveCont(co, clofun108, 1, R);
-Obj __args[5] = {v_2317941_25, v_2317942_25, v_2317943_25, v_2317944_25, v_fvs};
+saveCont(co, clofun111, 1, R);
+Obj __args[5] = {v_2318039_25, v_2318040_25, v_2318041_25, v_2318042_25, v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2319558_25= co->res;
+Obj v_2319675_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2317941_25 = R[2];
-Obj v_2317942_25 = R[3];
-Obj v_2317943_25 = R[4];
-Obj v_2317944_25 = R[5];
+Obj v_2318039_25 = R[2];
+Obj v_2318040_25 = R[3];
+Obj v_2318041_25 = R[4];
+Obj v_2318042_25 = R[5];
 Obj v_body = R[6];
 R[1] = v_fvs;
-R[2] = v_2317941_25;
-R[3] = v_2317942_25;
-R[4] = v_2317943_25;
-R[5] = v_2317944_25;
+R[2] = v_2318039_25;
+R[3] = v_2318040_25;
+R[4] = v_2318041_25;
+R[5] = v_2318042_25;
 R[6] = v_body;
-saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2317944_25, makeCString(co->gc, "= co->res;\n"));
+saveCont(co, clofun111, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318042_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v_2319556_25= co->res;
+Obj v_2319673_25= co->res;
 Obj v_var = R[1];
 Obj v_fvs = R[2];
-Obj v_2317941_25 = R[3];
-Obj v_2317942_25 = R[4];
-Obj v_2317943_25 = R[5];
-Obj v_2317944_25 = R[6];
+Obj v_2318039_25 = R[3];
+Obj v_2318040_25 = R[4];
+Obj v_2318041_25 = R[5];
+Obj v_2318042_25 = R[6];
 Obj v_body = R[7];
-Obj v_2319557_25 = PRIM_CAR(v_var);
+Obj v_2319674_25 = PRIM_CAR(v_var);
 R[1] = v_fvs;
-R[2] = v_2317941_25;
-R[3] = v_2317942_25;
-R[4] = v_2317943_25;
-R[5] = v_2317944_25;
+R[2] = v_2318039_25;
+R[3] = v_2318040_25;
+R[4] = v_2318041_25;
+R[5] = v_2318042_25;
 R[6] = v_body;
-saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2317944_25, v_2319557_25);
+saveCont(co, clofun111, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2318042_25, v_2319674_25);
 return;
 }
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2661,109 +2666,109 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v_2319526_25 = primGenSym(co);
-Obj v_generate_2dinst_2dlist_2dh = v_2319526_25;
-Obj v_2319537_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun105, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+Obj v_2319643_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2319643_25;
+Obj v_2319654_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun108, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
 R[1] = v_l;
-saveCont(co, clofun106, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_generate_2dinst_2dlist_2dh);
+saveCont(co, clofun109, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_generate_2dinst_2dlist_2dh);
 return;
 }
 case 1:
 {
-Obj v_2319538_25= co->res;
+Obj v_2319655_25= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319538_25, v_l);
+coraCall1(co, v_2319655_25, v_l);
 return;
 }
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2319527_25 = PRIM_EQ(Nil, v_x);
-if (True == v_2319527_25) {
+Obj v_2319644_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2319644_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319528_25 = PRIM_ISCONS(v_x);
-if (True == v_2319528_25) {
-Obj v_2319529_25 = PRIM_CAR(v_x);
-Obj v_a = v_2319529_25;
-Obj v_2319530_25 = PRIM_CDR(v_x);
-Obj v_b = v_2319530_25;
+Obj v_2319645_25 = PRIM_ISCONS(v_x);
+if (True == v_2319645_25) {
+Obj v_2319646_25 = PRIM_CAR(v_x);
+Obj v_a = v_2319646_25;
+Obj v_2319647_25 = PRIM_CDR(v_x);
+Obj v_b = v_2319647_25;
 R[1] = v_b;
-saveCont(co, clofun105, 5, R);
+saveCont(co, clofun108, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319535_25= co->res;
+Obj v_2319652_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319535_25, v_b);
+coraCall1(co, v_2319652_25, v_b);
 return;
 }
 case 2:
 {
-Obj v_2319534_25= co->res;
+Obj v_2319651_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun105, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
+saveCont(co, clofun108, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319536_25= co->res;
+Obj v_2319653_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319536_25, v_b);
+coraCall1(co, v_2319653_25, v_b);
 return;
 }
 case 4:
 {
-Obj v_2319532_25= co->res;
+Obj v_2319649_25= co->res;
 Obj v_b = R[1];
-Obj v_2319533_25 = primNot(v_2319532_25);
-if (True == v_2319533_25) {
+Obj v_2319650_25 = primNot(v_2319649_25);
+if (True == v_2319650_25) {
 R[1] = v_b;
-saveCont(co, clofun105, 2, R);
+saveCont(co, clofun108, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 R[1] = v_b;
-saveCont(co, clofun105, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
+saveCont(co, clofun108, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v_2319531_25= co->res;
+Obj v_2319648_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun105, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_b);
+saveCont(co, clofun108, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_b);
 return;
 }
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2772,318 +2777,318 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v_2319239_25 = primGenSym(co);
-Obj v_generate_2dinst_2dh = v_2319239_25;
-Obj v_2319523_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun103, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+Obj v_2319356_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2319356_25;
+Obj v_2319640_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun106, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
-saveCont(co, clofun104, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_generate_2dinst_2dh);
+saveCont(co, clofun107, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_generate_2dinst_2dh);
 return;
 }
 case 1:
 {
-Obj v_2319524_25= co->res;
+Obj v_2319641_25= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2319524_25, v_x1, v_env1);
+coraCall2(co, v_2319641_25, v_x1, v_env1);
 return;
 }
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v_2319240_25 = primIsSymbol(v_x2);
-if (True == v_2319240_25) {
+Obj v_2319357_25 = primIsSymbol(v_x2);
+if (True == v_2319357_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v_2317927_25 = makeNative(co->gc, 2, clofun102, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v_2319510_25 = PRIM_ISCONS(v_x2);
-if (True == v_2319510_25) {
-Obj v_2319511_25 = PRIM_CAR(v_x2);
-Obj v_2319512_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319511_25);
-if (True == v_2319512_25) {
-Obj v_2319513_25 = PRIM_CDR(v_x2);
-Obj v_2319514_25 = PRIM_ISCONS(v_2319513_25);
-if (True == v_2319514_25) {
-Obj v_2319515_25 = PRIM_CDR(v_x2);
-Obj v_2319516_25 = PRIM_CAR(v_2319515_25);
-Obj v_x = v_2319516_25;
-Obj v_2319517_25 = PRIM_CDR(v_x2);
-Obj v_2319518_25 = PRIM_CDR(v_2319517_25);
-Obj v_2319519_25 = PRIM_EQ(Nil, v_2319518_25);
-if (True == v_2319519_25) {
+Obj v_2318025_25 = makeNative(co->gc, 2, clofun105, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2319627_25 = PRIM_ISCONS(v_x2);
+if (True == v_2319627_25) {
+Obj v_2319628_25 = PRIM_CAR(v_x2);
+Obj v_2319629_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319628_25);
+if (True == v_2319629_25) {
+Obj v_2319630_25 = PRIM_CDR(v_x2);
+Obj v_2319631_25 = PRIM_ISCONS(v_2319630_25);
+if (True == v_2319631_25) {
+Obj v_2319632_25 = PRIM_CDR(v_x2);
+Obj v_2319633_25 = PRIM_CAR(v_2319632_25);
+Obj v_x = v_2319633_25;
+Obj v_2319634_25 = PRIM_CDR(v_x2);
+Obj v_2319635_25 = PRIM_CDR(v_2319634_25);
+Obj v_2319636_25 = PRIM_EQ(Nil, v_2319635_25);
+if (True == v_2319636_25) {
 R[1] = v_x;
-saveCont(co, clofun103, 3, R);
+saveCont(co, clofun106, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317927_25);
+coraCall0(co, v_2318025_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317927_25);
+coraCall0(co, v_2318025_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317927_25);
+coraCall0(co, v_2318025_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317927_25);
+coraCall0(co, v_2318025_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319522_25= co->res;
+Obj v_2319639_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v_2319521_25= co->res;
-saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319521_25);
+Obj v_2319638_25= co->res;
+saveCont(co, clofun106, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319638_25);
 return;
 }
 case 3:
 {
-Obj v_2319520_25= co->res;
+Obj v_2319637_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun103, 2, R);
+saveCont(co, clofun106, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317928_25 = makeNative(co->gc, 2, clofun101, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v_2319498_25 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v_2319498_25) {
-Obj v_2319499_25 = PRIM_CAR(closureRef(R[0], 4));
-Obj v_2319500_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319499_25);
-if (True == v_2319500_25) {
-Obj v_2319501_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319502_25 = PRIM_ISCONS(v_2319501_25);
-if (True == v_2319502_25) {
-Obj v_2319503_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319504_25 = PRIM_CAR(v_2319503_25);
-Obj v_idx = v_2319504_25;
-Obj v_2319505_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319506_25 = PRIM_CDR(v_2319505_25);
-Obj v_2319507_25 = PRIM_EQ(Nil, v_2319506_25);
-if (True == v_2319507_25) {
+Obj v_2318026_25 = makeNative(co->gc, 2, clofun104, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2319615_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2319615_25) {
+Obj v_2319616_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2319617_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319616_25);
+if (True == v_2319617_25) {
+Obj v_2319618_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319619_25 = PRIM_ISCONS(v_2319618_25);
+if (True == v_2319619_25) {
+Obj v_2319620_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319621_25 = PRIM_CAR(v_2319620_25);
+Obj v_idx = v_2319621_25;
+Obj v_2319622_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319623_25 = PRIM_CDR(v_2319622_25);
+Obj v_2319624_25 = PRIM_EQ(Nil, v_2319623_25);
+if (True == v_2319624_25) {
 R[1] = v_idx;
-saveCont(co, clofun102, 2, R);
+saveCont(co, clofun105, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317928_25);
+coraCall0(co, v_2318026_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317928_25);
+coraCall0(co, v_2318026_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317928_25);
+coraCall0(co, v_2318026_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317928_25);
+coraCall0(co, v_2318026_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319509_25= co->res;
+Obj v_2319626_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319508_25= co->res;
+Obj v_2319625_25= co->res;
 Obj v_idx = R[1];
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun105, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_idx);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317929_25 = makeNative(co->gc, 4, clofun100, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2319474_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2319474_25) {
-Obj v_2319475_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2319476_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319475_25);
-if (True == v_2319476_25) {
-Obj v_2319477_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319478_25 = PRIM_ISCONS(v_2319477_25);
-if (True == v_2319478_25) {
-Obj v_2319479_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319480_25 = PRIM_CAR(v_2319479_25);
-Obj v_x = v_2319480_25;
-Obj v_2319481_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319482_25 = PRIM_CDR(v_2319481_25);
-Obj v_2319483_25 = PRIM_EQ(Nil, v_2319482_25);
-if (True == v_2319483_25) {
-Obj v_2319484_25 = primIsSymbol(v_x);
-if (True == v_2319484_25) {
+Obj v_2318027_25 = makeNative(co->gc, 4, clofun103, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319591_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2319591_25) {
+Obj v_2319592_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2319593_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319592_25);
+if (True == v_2319593_25) {
+Obj v_2319594_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319595_25 = PRIM_ISCONS(v_2319594_25);
+if (True == v_2319595_25) {
+Obj v_2319596_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319597_25 = PRIM_CAR(v_2319596_25);
+Obj v_x = v_2319597_25;
+Obj v_2319598_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319599_25 = PRIM_CDR(v_2319598_25);
+Obj v_2319600_25 = PRIM_EQ(Nil, v_2319599_25);
+if (True == v_2319600_25) {
+Obj v_2319601_25 = primIsSymbol(v_x);
+if (True == v_2319601_25) {
 R[1] = v_x;
-saveCont(co, clofun101, 3, R);
+saveCont(co, clofun104, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = v_x;
-saveCont(co, clofun101, 9, R);
+saveCont(co, clofun104, 9, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317929_25);
+coraCall0(co, v_2318027_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317929_25);
+coraCall0(co, v_2318027_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317929_25);
+coraCall0(co, v_2318027_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317929_25);
+coraCall0(co, v_2318027_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319487_25= co->res;
+Obj v_2319604_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v_2319486_25= co->res;
-saveCont(co, clofun101, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319486_25);
+Obj v_2319603_25= co->res;
+saveCont(co, clofun104, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319603_25);
 return;
 }
 case 3:
 {
-Obj v_2319485_25= co->res;
+Obj v_2319602_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun101, 2, R);
+saveCont(co, clofun104, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2319490_25= co->res;
+Obj v_2319607_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v_2319489_25= co->res;
+Obj v_2319606_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun101, 4, R);
+saveCont(co, clofun104, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_x);
 return;
 }
 case 6:
 {
-Obj v_2319494_25= co->res;
+Obj v_2319611_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v_2319493_25= co->res;
-saveCont(co, clofun101, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319493_25);
+Obj v_2319610_25= co->res;
+saveCont(co, clofun104, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319610_25);
 return;
 }
 case 8:
 {
-Obj v_2319492_25= co->res;
+Obj v_2319609_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun101, 7, R);
+saveCont(co, clofun104, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_x);
 return;
 }
 case 9:
 {
-Obj v_2319488_25= co->res;
+Obj v_2319605_25= co->res;
 Obj v_x = R[1];
-if (True == v_2319488_25) {
+if (True == v_2319605_25) {
 R[1] = v_x;
-saveCont(co, clofun101, 5, R);
+saveCont(co, clofun104, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v_2319491_25 = primIsString(v_x);
-if (True == v_2319491_25) {
+Obj v_2319608_25 = primIsString(v_x);
+if (True == v_2319608_25) {
 R[1] = v_x;
-saveCont(co, clofun101, 8, R);
+saveCont(co, clofun104, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v_2319495_25 = PRIM_EQ(v_x, Nil);
-if (True == v_2319495_25) {
+Obj v_2319612_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2319612_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v_2319496_25 = PRIM_EQ(v_x, True);
-if (True == v_2319496_25) {
+Obj v_2319613_25 = PRIM_EQ(v_x, True);
+if (True == v_2319613_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v_2319497_25 = PRIM_EQ(v_x, False);
-if (True == v_2319497_25) {
+Obj v_2319614_25 = PRIM_EQ(v_x, False);
+if (True == v_2319614_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -3094,334 +3099,334 @@ return;
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317930_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2319439_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319439_25) {
-Obj v_2319440_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319441_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319440_25);
-if (True == v_2319441_25) {
-Obj v_2319442_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319443_25 = PRIM_ISCONS(v_2319442_25);
-if (True == v_2319443_25) {
-Obj v_2319444_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319445_25 = PRIM_CAR(v_2319444_25);
-Obj v_a = v_2319445_25;
-Obj v_2319446_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319447_25 = PRIM_CDR(v_2319446_25);
-Obj v_2319448_25 = PRIM_ISCONS(v_2319447_25);
-if (True == v_2319448_25) {
-Obj v_2319449_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319450_25 = PRIM_CDR(v_2319449_25);
-Obj v_2319451_25 = PRIM_CAR(v_2319450_25);
-Obj v_b = v_2319451_25;
-Obj v_2319452_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319453_25 = PRIM_CDR(v_2319452_25);
-Obj v_2319454_25 = PRIM_CDR(v_2319453_25);
-Obj v_2319455_25 = PRIM_ISCONS(v_2319454_25);
-if (True == v_2319455_25) {
-Obj v_2319456_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319457_25 = PRIM_CDR(v_2319456_25);
-Obj v_2319458_25 = PRIM_CDR(v_2319457_25);
-Obj v_2319459_25 = PRIM_CAR(v_2319458_25);
-Obj v_c = v_2319459_25;
-Obj v_2319460_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319461_25 = PRIM_CDR(v_2319460_25);
-Obj v_2319462_25 = PRIM_CDR(v_2319461_25);
-Obj v_2319463_25 = PRIM_CDR(v_2319462_25);
-Obj v_2319464_25 = PRIM_EQ(Nil, v_2319463_25);
-if (True == v_2319464_25) {
+Obj v_2318028_25 = makeNative(co->gc, 3, clofun102, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319556_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319556_25) {
+Obj v_2319557_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319558_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319557_25);
+if (True == v_2319558_25) {
+Obj v_2319559_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319560_25 = PRIM_ISCONS(v_2319559_25);
+if (True == v_2319560_25) {
+Obj v_2319561_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319562_25 = PRIM_CAR(v_2319561_25);
+Obj v_a = v_2319562_25;
+Obj v_2319563_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319564_25 = PRIM_CDR(v_2319563_25);
+Obj v_2319565_25 = PRIM_ISCONS(v_2319564_25);
+if (True == v_2319565_25) {
+Obj v_2319566_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319567_25 = PRIM_CDR(v_2319566_25);
+Obj v_2319568_25 = PRIM_CAR(v_2319567_25);
+Obj v_b = v_2319568_25;
+Obj v_2319569_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319570_25 = PRIM_CDR(v_2319569_25);
+Obj v_2319571_25 = PRIM_CDR(v_2319570_25);
+Obj v_2319572_25 = PRIM_ISCONS(v_2319571_25);
+if (True == v_2319572_25) {
+Obj v_2319573_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319574_25 = PRIM_CDR(v_2319573_25);
+Obj v_2319575_25 = PRIM_CDR(v_2319574_25);
+Obj v_2319576_25 = PRIM_CAR(v_2319575_25);
+Obj v_c = v_2319576_25;
+Obj v_2319577_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319578_25 = PRIM_CDR(v_2319577_25);
+Obj v_2319579_25 = PRIM_CDR(v_2319578_25);
+Obj v_2319580_25 = PRIM_CDR(v_2319579_25);
+Obj v_2319581_25 = PRIM_EQ(Nil, v_2319580_25);
+if (True == v_2319581_25) {
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun100, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_a, closureRef(R[0], 5));
+saveCont(co, clofun103, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317930_25);
+coraCall0(co, v_2318028_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317930_25);
+coraCall0(co, v_2318028_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317930_25);
+coraCall0(co, v_2318028_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317930_25);
+coraCall0(co, v_2318028_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317930_25);
+coraCall0(co, v_2318028_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317930_25);
+coraCall0(co, v_2318028_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319472_25= co->res;
+Obj v_2319589_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_2319473_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
+Obj v_2319590_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v_2319472_25, v_c, v_2319473_25);
+coraCall2(co, v_2319589_25, v_c, v_2319590_25);
 return;
 }
 case 2:
 {
-Obj v_2319471_25= co->res;
+Obj v_2319588_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
+saveCont(co, clofun103, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319470_25= co->res;
+Obj v_2319587_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun100, 2, R);
+saveCont(co, clofun103, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2319469_25= co->res;
+Obj v_2319586_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun100, 3, R);
-coraCall2(co, v_2319469_25, v_b, closureRef(R[0], 5));
+saveCont(co, clofun103, 3, R);
+coraCall2(co, v_2319586_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v_2319468_25= co->res;
+Obj v_2319585_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun100, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
+saveCont(co, clofun103, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2319467_25= co->res;
+Obj v_2319584_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun100, 5, R);
+saveCont(co, clofun103, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v_2319466_25= co->res;
+Obj v_2319583_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun100, 6, R);
+saveCont(co, clofun103, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_a);
 return;
 }
 case 8:
 {
-Obj v_2319465_25= co->res;
+Obj v_2319582_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
-saveCont(co, clofun100, 7, R);
+saveCont(co, clofun103, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317931_25 = makeNative(co->gc, 4, clofun98, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319409_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319409_25) {
-Obj v_2319410_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319411_25 = PRIM_ISCONS(v_2319410_25);
-if (True == v_2319411_25) {
-Obj v_2319412_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319413_25 = PRIM_CAR(v_2319412_25);
-Obj v_2319414_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319413_25);
-if (True == v_2319414_25) {
-Obj v_2319415_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319416_25 = PRIM_CDR(v_2319415_25);
-Obj v_2319417_25 = PRIM_ISCONS(v_2319416_25);
-if (True == v_2319417_25) {
-Obj v_2319418_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319419_25 = PRIM_CDR(v_2319418_25);
-Obj v_2319420_25 = PRIM_CAR(v_2319419_25);
-Obj v_f = v_2319420_25;
-Obj v_2319421_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319422_25 = PRIM_CDR(v_2319421_25);
-Obj v_2319423_25 = PRIM_CDR(v_2319422_25);
-Obj v_2319424_25 = PRIM_EQ(Nil, v_2319423_25);
-if (True == v_2319424_25) {
-Obj v_2319425_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_args = v_2319425_25;
+Obj v_2318029_25 = makeNative(co->gc, 4, clofun101, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319526_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319526_25) {
+Obj v_2319527_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319528_25 = PRIM_ISCONS(v_2319527_25);
+if (True == v_2319528_25) {
+Obj v_2319529_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319530_25 = PRIM_CAR(v_2319529_25);
+Obj v_2319531_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2319530_25);
+if (True == v_2319531_25) {
+Obj v_2319532_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319533_25 = PRIM_CDR(v_2319532_25);
+Obj v_2319534_25 = PRIM_ISCONS(v_2319533_25);
+if (True == v_2319534_25) {
+Obj v_2319535_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319536_25 = PRIM_CDR(v_2319535_25);
+Obj v_2319537_25 = PRIM_CAR(v_2319536_25);
+Obj v_f = v_2319537_25;
+Obj v_2319538_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319539_25 = PRIM_CDR(v_2319538_25);
+Obj v_2319540_25 = PRIM_CDR(v_2319539_25);
+Obj v_2319541_25 = PRIM_EQ(Nil, v_2319540_25);
+if (True == v_2319541_25) {
+Obj v_2319542_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2319542_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun99, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v_f);
+saveCont(co, clofun102, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317931_25);
+coraCall0(co, v_2318029_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317931_25);
+coraCall0(co, v_2318029_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317931_25);
+coraCall0(co, v_2318029_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317931_25);
+coraCall0(co, v_2318029_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317931_25);
+coraCall0(co, v_2318029_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319430_25= co->res;
+Obj v_2319547_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319429_25= co->res;
+Obj v_2319546_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun99, 1, R);
+saveCont(co, clofun102, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2319433_25= co->res;
+Obj v_2319550_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v_2319432_25= co->res;
+Obj v_2319549_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun99, 3, R);
+saveCont(co, clofun102, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v_2319436_25= co->res;
+Obj v_2319553_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v_2319435_25= co->res;
+Obj v_2319552_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun99, 5, R);
+saveCont(co, clofun102, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v_2319438_25= co->res;
+Obj v_2319555_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v_2319437_25= co->res;
+Obj v_2319554_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun99, 7, R);
+saveCont(co, clofun102, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2319427_25= co->res;
+Obj v_2319544_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2319428_25 = PRIM_EQ(v_f, getBinding(co, packageID, 126).name);
-if (True == v_2319428_25) {
+Obj v_2319545_25 = PRIM_EQ(v_f, getBinding(co, packageID, 127).name);
+if (True == v_2319545_25) {
 R[1] = v_args;
-saveCont(co, clofun99, 2, R);
+saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v_2319431_25 = PRIM_EQ(v_f, getBinding(co, packageID, 114).name);
-if (True == v_2319431_25) {
+Obj v_2319548_25 = PRIM_EQ(v_f, getBinding(co, packageID, 115).name);
+if (True == v_2319548_25) {
 R[1] = v_args;
-saveCont(co, clofun99, 4, R);
+saveCont(co, clofun102, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v_2319434_25 = PRIM_EQ(v_f, getBinding(co, packageID, 123).name);
-if (True == v_2319434_25) {
+Obj v_2319551_25 = PRIM_EQ(v_f, getBinding(co, packageID, 124).name);
+if (True == v_2319551_25) {
 R[1] = v_args;
-saveCont(co, clofun99, 6, R);
+saveCont(co, clofun102, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = v_args;
-saveCont(co, clofun99, 8, R);
+saveCont(co, clofun102, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3430,284 +3435,284 @@ return;
 }
 case 10:
 {
-Obj v_2319426_25= co->res;
+Obj v_2319543_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun99, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319426_25);
+saveCont(co, clofun102, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319543_25);
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317932_25 = makeNative(co->gc, 5, clofun97, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319374_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319374_25) {
-Obj v_2319375_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319376_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2319375_25);
-if (True == v_2319376_25) {
-Obj v_2319377_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319378_25 = PRIM_ISCONS(v_2319377_25);
-if (True == v_2319378_25) {
-Obj v_2319379_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319380_25 = PRIM_CAR(v_2319379_25);
-Obj v_a = v_2319380_25;
-Obj v_2319381_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319382_25 = PRIM_CDR(v_2319381_25);
-Obj v_2319383_25 = PRIM_ISCONS(v_2319382_25);
-if (True == v_2319383_25) {
-Obj v_2319384_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319385_25 = PRIM_CDR(v_2319384_25);
-Obj v_2319386_25 = PRIM_CAR(v_2319385_25);
-Obj v_b = v_2319386_25;
-Obj v_2319387_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319388_25 = PRIM_CDR(v_2319387_25);
-Obj v_2319389_25 = PRIM_CDR(v_2319388_25);
-Obj v_2319390_25 = PRIM_ISCONS(v_2319389_25);
-if (True == v_2319390_25) {
-Obj v_2319391_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319392_25 = PRIM_CDR(v_2319391_25);
-Obj v_2319393_25 = PRIM_CDR(v_2319392_25);
-Obj v_2319394_25 = PRIM_CAR(v_2319393_25);
-Obj v_c = v_2319394_25;
-Obj v_2319395_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319396_25 = PRIM_CDR(v_2319395_25);
-Obj v_2319397_25 = PRIM_CDR(v_2319396_25);
-Obj v_2319398_25 = PRIM_CDR(v_2319397_25);
-Obj v_2319399_25 = PRIM_EQ(Nil, v_2319398_25);
-if (True == v_2319399_25) {
+Obj v_2318030_25 = makeNative(co->gc, 5, clofun100, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319491_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319491_25) {
+Obj v_2319492_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319493_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319492_25);
+if (True == v_2319493_25) {
+Obj v_2319494_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319495_25 = PRIM_ISCONS(v_2319494_25);
+if (True == v_2319495_25) {
+Obj v_2319496_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319497_25 = PRIM_CAR(v_2319496_25);
+Obj v_a = v_2319497_25;
+Obj v_2319498_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319499_25 = PRIM_CDR(v_2319498_25);
+Obj v_2319500_25 = PRIM_ISCONS(v_2319499_25);
+if (True == v_2319500_25) {
+Obj v_2319501_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319502_25 = PRIM_CDR(v_2319501_25);
+Obj v_2319503_25 = PRIM_CAR(v_2319502_25);
+Obj v_b = v_2319503_25;
+Obj v_2319504_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319505_25 = PRIM_CDR(v_2319504_25);
+Obj v_2319506_25 = PRIM_CDR(v_2319505_25);
+Obj v_2319507_25 = PRIM_ISCONS(v_2319506_25);
+if (True == v_2319507_25) {
+Obj v_2319508_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319509_25 = PRIM_CDR(v_2319508_25);
+Obj v_2319510_25 = PRIM_CDR(v_2319509_25);
+Obj v_2319511_25 = PRIM_CAR(v_2319510_25);
+Obj v_c = v_2319511_25;
+Obj v_2319512_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319513_25 = PRIM_CDR(v_2319512_25);
+Obj v_2319514_25 = PRIM_CDR(v_2319513_25);
+Obj v_2319515_25 = PRIM_CDR(v_2319514_25);
+Obj v_2319516_25 = PRIM_EQ(Nil, v_2319515_25);
+if (True == v_2319516_25) {
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
-saveCont(co, clofun98, 9, R);
+saveCont(co, clofun101, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317932_25);
+coraCall0(co, v_2318030_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317932_25);
+coraCall0(co, v_2318030_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317932_25);
+coraCall0(co, v_2318030_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317932_25);
+coraCall0(co, v_2318030_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317932_25);
+coraCall0(co, v_2318030_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317932_25);
+coraCall0(co, v_2318030_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319408_25= co->res;
+Obj v_2319525_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v_2319407_25= co->res;
+Obj v_2319524_25= co->res;
 Obj v_c = R[1];
-saveCont(co, clofun98, 1, R);
-coraCall2(co, v_2319407_25, v_c, closureRef(R[0], 4));
+saveCont(co, clofun101, 1, R);
+coraCall2(co, v_2319524_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319406_25= co->res;
+Obj v_2319523_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
-saveCont(co, clofun98, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
+saveCont(co, clofun101, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2319405_25= co->res;
+Obj v_2319522_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
-saveCont(co, clofun98, 3, R);
+saveCont(co, clofun101, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v_2319404_25= co->res;
+Obj v_2319521_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_c;
-saveCont(co, clofun98, 4, R);
-coraCall2(co, v_2319404_25, v_b, closureRef(R[0], 4));
+saveCont(co, clofun101, 4, R);
+coraCall2(co, v_2319521_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2319403_25= co->res;
+Obj v_2319520_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun98, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
+saveCont(co, clofun101, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v_2319402_25= co->res;
+Obj v_2319519_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun98, 6, R);
+saveCont(co, clofun101, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v_2319401_25= co->res;
+Obj v_2319518_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_c;
-saveCont(co, clofun98, 7, R);
-coraCall2(co, v_2319401_25, v_a, closureRef(R[0], 4));
+saveCont(co, clofun101, 7, R);
+coraCall2(co, v_2319518_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v_2319400_25= co->res;
+Obj v_2319517_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
-saveCont(co, clofun98, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
+saveCont(co, clofun101, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317933_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v_2319336_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319336_25) {
-Obj v_2319337_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319338_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319337_25);
-if (True == v_2319338_25) {
-Obj v_2319339_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319340_25 = PRIM_ISCONS(v_2319339_25);
-if (True == v_2319340_25) {
-Obj v_2319341_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319342_25 = PRIM_CAR(v_2319341_25);
-Obj v_label = v_2319342_25;
-Obj v_2319343_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319344_25 = PRIM_CDR(v_2319343_25);
-Obj v_2319345_25 = PRIM_ISCONS(v_2319344_25);
-if (True == v_2319345_25) {
-Obj v_2319346_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319347_25 = PRIM_CDR(v_2319346_25);
-Obj v_2319348_25 = PRIM_CAR(v_2319347_25);
-Obj v_nargs = v_2319348_25;
-Obj v_2319349_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319350_25 = PRIM_CDR(v_2319349_25);
-Obj v_2319351_25 = PRIM_CDR(v_2319350_25);
-Obj v_2319352_25 = PRIM_ISCONS(v_2319351_25);
-if (True == v_2319352_25) {
-Obj v_2319353_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319354_25 = PRIM_CDR(v_2319353_25);
-Obj v_2319355_25 = PRIM_CDR(v_2319354_25);
-Obj v_2319356_25 = PRIM_CAR(v_2319355_25);
-Obj v_nframe = v_2319356_25;
-Obj v_2319357_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319358_25 = PRIM_CDR(v_2319357_25);
-Obj v_2319359_25 = PRIM_CDR(v_2319358_25);
-Obj v_2319360_25 = PRIM_CDR(v_2319359_25);
-Obj v_frees = v_2319360_25;
+Obj v_2318031_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2319453_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319453_25) {
+Obj v_2319454_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319455_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319454_25);
+if (True == v_2319455_25) {
+Obj v_2319456_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319457_25 = PRIM_ISCONS(v_2319456_25);
+if (True == v_2319457_25) {
+Obj v_2319458_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319459_25 = PRIM_CAR(v_2319458_25);
+Obj v_label = v_2319459_25;
+Obj v_2319460_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319461_25 = PRIM_CDR(v_2319460_25);
+Obj v_2319462_25 = PRIM_ISCONS(v_2319461_25);
+if (True == v_2319462_25) {
+Obj v_2319463_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319464_25 = PRIM_CDR(v_2319463_25);
+Obj v_2319465_25 = PRIM_CAR(v_2319464_25);
+Obj v_nargs = v_2319465_25;
+Obj v_2319466_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319467_25 = PRIM_CDR(v_2319466_25);
+Obj v_2319468_25 = PRIM_CDR(v_2319467_25);
+Obj v_2319469_25 = PRIM_ISCONS(v_2319468_25);
+if (True == v_2319469_25) {
+Obj v_2319470_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319471_25 = PRIM_CDR(v_2319470_25);
+Obj v_2319472_25 = PRIM_CDR(v_2319471_25);
+Obj v_2319473_25 = PRIM_CAR(v_2319472_25);
+Obj v_nframe = v_2319473_25;
+Obj v_2319474_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319475_25 = PRIM_CDR(v_2319474_25);
+Obj v_2319476_25 = PRIM_CDR(v_2319475_25);
+Obj v_2319477_25 = PRIM_CDR(v_2319476_25);
+Obj v_frees = v_2319477_25;
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_nargs;
 R[4] = v_frees;
-saveCont(co, clofun97, 12, R);
+saveCont(co, clofun100, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317933_25);
+coraCall0(co, v_2318031_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317933_25);
+coraCall0(co, v_2318031_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317933_25);
+coraCall0(co, v_2318031_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317933_25);
+coraCall0(co, v_2318031_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317933_25);
+coraCall0(co, v_2318031_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319373_25= co->res;
+Obj v_2319490_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319372_25= co->res;
+Obj v_2319489_25= co->res;
 Obj v_frees = R[1];
-saveCont(co, clofun97, 1, R);
+saveCont(co, clofun100, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2319370_25= co->res;
+Obj v_2319487_25= co->res;
 Obj v_frees = R[1];
-Obj v_2319371_25 = primNot(v_2319370_25);
-if (True == v_2319371_25) {
+Obj v_2319488_25 = primNot(v_2319487_25);
+if (True == v_2319488_25) {
 R[1] = v_frees;
-saveCont(co, clofun97, 2, R);
+saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3719,89 +3724,89 @@ return;
 }
 case 4:
 {
-Obj v_2319369_25= co->res;
+Obj v_2319486_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun97, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_frees);
+saveCont(co, clofun100, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_frees);
 return;
 }
 case 5:
 {
-Obj v_2319368_25= co->res;
+Obj v_2319485_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319368_25);
+saveCont(co, clofun100, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319485_25);
 return;
 }
 case 6:
 {
-Obj v_2319367_25= co->res;
+Obj v_2319484_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun97, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_frees);
+saveCont(co, clofun100, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_frees);
 return;
 }
 case 7:
 {
-Obj v_2319366_25= co->res;
+Obj v_2319483_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
-saveCont(co, clofun97, 6, R);
+saveCont(co, clofun100, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v_2319365_25= co->res;
+Obj v_2319482_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_frees;
-saveCont(co, clofun97, 7, R);
+saveCont(co, clofun100, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 9:
 {
-Obj v_2319364_25= co->res;
+Obj v_2319481_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_nargs;
 R[2] = v_frees;
-saveCont(co, clofun97, 8, R);
+saveCont(co, clofun100, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v_2319363_25= co->res;
+Obj v_2319480_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_nargs;
 R[2] = v_frees;
-saveCont(co, clofun97, 9, R);
+saveCont(co, clofun100, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), v_label);
 return;
 }
 case 11:
 {
-Obj v_2319362_25= co->res;
+Obj v_2319479_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
 R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
-saveCont(co, clofun97, 10, R);
+saveCont(co, clofun100, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v_2319361_25= co->res;
+Obj v_2319478_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_nargs = R[3];
@@ -3809,549 +3814,549 @@ Obj v_frees = R[4];
 R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
-saveCont(co, clofun97, 11, R);
+saveCont(co, clofun100, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nframe);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317934_25 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2319315_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319315_25) {
-Obj v_2319316_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319317_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319316_25);
-if (True == v_2319317_25) {
-Obj v_2319318_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319319_25 = PRIM_ISCONS(v_2319318_25);
-if (True == v_2319319_25) {
-Obj v_2319320_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319321_25 = PRIM_CAR(v_2319320_25);
-Obj v_a = v_2319321_25;
-Obj v_2319322_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319323_25 = PRIM_CDR(v_2319322_25);
-Obj v_2319324_25 = PRIM_ISCONS(v_2319323_25);
-if (True == v_2319324_25) {
-Obj v_2319325_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319326_25 = PRIM_CDR(v_2319325_25);
-Obj v_2319327_25 = PRIM_CAR(v_2319326_25);
-Obj v_b = v_2319327_25;
-Obj v_2319328_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319329_25 = PRIM_CDR(v_2319328_25);
-Obj v_2319330_25 = PRIM_CDR(v_2319329_25);
-Obj v_2319331_25 = PRIM_EQ(Nil, v_2319330_25);
-if (True == v_2319331_25) {
+Obj v_2318032_25 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319432_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319432_25) {
+Obj v_2319433_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319434_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319433_25);
+if (True == v_2319434_25) {
+Obj v_2319435_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319436_25 = PRIM_ISCONS(v_2319435_25);
+if (True == v_2319436_25) {
+Obj v_2319437_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319438_25 = PRIM_CAR(v_2319437_25);
+Obj v_a = v_2319438_25;
+Obj v_2319439_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319440_25 = PRIM_CDR(v_2319439_25);
+Obj v_2319441_25 = PRIM_ISCONS(v_2319440_25);
+if (True == v_2319441_25) {
+Obj v_2319442_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319443_25 = PRIM_CDR(v_2319442_25);
+Obj v_2319444_25 = PRIM_CAR(v_2319443_25);
+Obj v_b = v_2319444_25;
+Obj v_2319445_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319446_25 = PRIM_CDR(v_2319445_25);
+Obj v_2319447_25 = PRIM_CDR(v_2319446_25);
+Obj v_2319448_25 = PRIM_EQ(Nil, v_2319447_25);
+if (True == v_2319448_25) {
 R[1] = v_a;
 R[2] = v_b;
-saveCont(co, clofun96, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
+saveCont(co, clofun99, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317934_25);
+coraCall0(co, v_2318032_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317934_25);
+coraCall0(co, v_2318032_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317934_25);
+coraCall0(co, v_2318032_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317934_25);
+coraCall0(co, v_2318032_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317934_25);
+coraCall0(co, v_2318032_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319335_25= co->res;
+Obj v_2319452_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, v_2319335_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2319452_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v_2319334_25= co->res;
+Obj v_2319451_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun96, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 4));
+saveCont(co, clofun99, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319333_25= co->res;
+Obj v_2319450_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
-saveCont(co, clofun96, 2, R);
+saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v_2319332_25= co->res;
+Obj v_2319449_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 R[1] = v_b;
-saveCont(co, clofun96, 3, R);
-coraCall2(co, v_2319332_25, v_a, closureRef(R[0], 5));
+saveCont(co, clofun99, 3, R);
+coraCall2(co, v_2319449_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317935_25 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319301_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319301_25) {
-Obj v_2319302_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319303_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2319302_25);
-if (True == v_2319303_25) {
-Obj v_2319304_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319305_25 = PRIM_ISCONS(v_2319304_25);
-if (True == v_2319305_25) {
-Obj v_2319306_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319307_25 = PRIM_CAR(v_2319306_25);
-Obj v_x = v_2319307_25;
-Obj v_2319308_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319309_25 = PRIM_CDR(v_2319308_25);
-Obj v_2319310_25 = PRIM_EQ(Nil, v_2319309_25);
-if (True == v_2319310_25) {
+Obj v_2318033_25 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319418_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319418_25) {
+Obj v_2319419_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319420_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319419_25);
+if (True == v_2319420_25) {
+Obj v_2319421_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319422_25 = PRIM_ISCONS(v_2319421_25);
+if (True == v_2319422_25) {
+Obj v_2319423_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319424_25 = PRIM_CAR(v_2319423_25);
+Obj v_x = v_2319424_25;
+Obj v_2319425_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319426_25 = PRIM_CDR(v_2319425_25);
+Obj v_2319427_25 = PRIM_EQ(Nil, v_2319426_25);
+if (True == v_2319427_25) {
 R[1] = v_x;
-saveCont(co, clofun95, 4, R);
+saveCont(co, clofun98, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317935_25);
+coraCall0(co, v_2318033_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317935_25);
+coraCall0(co, v_2318033_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317935_25);
+coraCall0(co, v_2318033_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317935_25);
+coraCall0(co, v_2318033_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319314_25= co->res;
+Obj v_2319431_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2319313_25= co->res;
-saveCont(co, clofun95, 1, R);
+Obj v_2319430_25= co->res;
+saveCont(co, clofun98, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v_2319312_25= co->res;
+Obj v_2319429_25= co->res;
 Obj v_x = R[1];
-saveCont(co, clofun95, 2, R);
-coraCall2(co, v_2319312_25, v_x, closureRef(R[0], 4));
+saveCont(co, clofun98, 2, R);
+coraCall2(co, v_2319429_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2319311_25= co->res;
+Obj v_2319428_25= co->res;
 Obj v_x = R[1];
 R[1] = v_x;
-saveCont(co, clofun95, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
+saveCont(co, clofun98, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317936_25 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319288_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319288_25) {
-Obj v_2319289_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319290_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319289_25);
-if (True == v_2319290_25) {
-Obj v_2319291_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319292_25 = PRIM_ISCONS(v_2319291_25);
-if (True == v_2319292_25) {
-Obj v_2319293_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319294_25 = PRIM_CAR(v_2319293_25);
-Obj v_exp = v_2319294_25;
-Obj v_2319295_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319296_25 = PRIM_CDR(v_2319295_25);
-Obj v_2319297_25 = PRIM_EQ(Nil, v_2319296_25);
-if (True == v_2319297_25) {
+Obj v_2318034_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319405_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319405_25) {
+Obj v_2319406_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319407_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2319406_25);
+if (True == v_2319407_25) {
+Obj v_2319408_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319409_25 = PRIM_ISCONS(v_2319408_25);
+if (True == v_2319409_25) {
+Obj v_2319410_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319411_25 = PRIM_CAR(v_2319410_25);
+Obj v_exp = v_2319411_25;
+Obj v_2319412_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319413_25 = PRIM_CDR(v_2319412_25);
+Obj v_2319414_25 = PRIM_EQ(Nil, v_2319413_25);
+if (True == v_2319414_25) {
 R[1] = v_exp;
-saveCont(co, clofun94, 3, R);
+saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317936_25);
+coraCall0(co, v_2318034_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317936_25);
+coraCall0(co, v_2318034_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317936_25);
+coraCall0(co, v_2318034_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317936_25);
+coraCall0(co, v_2318034_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319300_25= co->res;
+Obj v_2319417_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2319299_25= co->res;
+Obj v_2319416_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun94, 1, R);
-coraCall2(co, v_2319299_25, v_exp, closureRef(R[0], 4));
+saveCont(co, clofun97, 1, R);
+coraCall2(co, v_2319416_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319298_25= co->res;
+Obj v_2319415_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
+saveCont(co, clofun97, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317937_25 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319264_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319264_25) {
-Obj v_2319265_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319266_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319265_25);
-if (True == v_2319266_25) {
-Obj v_2319267_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319268_25 = PRIM_ISCONS(v_2319267_25);
-if (True == v_2319268_25) {
-Obj v_2319269_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319270_25 = PRIM_CAR(v_2319269_25);
-Obj v_exp = v_2319270_25;
-Obj v_2319271_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319272_25 = PRIM_CDR(v_2319271_25);
-Obj v_2319273_25 = PRIM_ISCONS(v_2319272_25);
-if (True == v_2319273_25) {
-Obj v_2319274_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319275_25 = PRIM_CDR(v_2319274_25);
-Obj v_2319276_25 = PRIM_CAR(v_2319275_25);
-Obj v_label = v_2319276_25;
-Obj v_2319277_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319278_25 = PRIM_CDR(v_2319277_25);
-Obj v_2319279_25 = PRIM_CDR(v_2319278_25);
-Obj v_fvs = v_2319279_25;
+Obj v_2318035_25 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319381_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319381_25) {
+Obj v_2319382_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319383_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319382_25);
+if (True == v_2319383_25) {
+Obj v_2319384_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319385_25 = PRIM_ISCONS(v_2319384_25);
+if (True == v_2319385_25) {
+Obj v_2319386_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319387_25 = PRIM_CAR(v_2319386_25);
+Obj v_exp = v_2319387_25;
+Obj v_2319388_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319389_25 = PRIM_CDR(v_2319388_25);
+Obj v_2319390_25 = PRIM_ISCONS(v_2319389_25);
+if (True == v_2319390_25) {
+Obj v_2319391_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319392_25 = PRIM_CDR(v_2319391_25);
+Obj v_2319393_25 = PRIM_CAR(v_2319392_25);
+Obj v_label = v_2319393_25;
+Obj v_2319394_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319395_25 = PRIM_CDR(v_2319394_25);
+Obj v_2319396_25 = PRIM_CDR(v_2319395_25);
+Obj v_fvs = v_2319396_25;
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun93, 8, R);
+saveCont(co, clofun96, 8, R);
 Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317937_25);
+coraCall0(co, v_2318035_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317937_25);
+coraCall0(co, v_2318035_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317937_25);
+coraCall0(co, v_2318035_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317937_25);
+coraCall0(co, v_2318035_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319287_25= co->res;
+Obj v_2319404_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2319286_25= co->res;
+Obj v_2319403_25= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun93, 1, R);
-coraCall2(co, v_2319286_25, v_exp, closureRef(R[0], 4));
+saveCont(co, clofun96, 1, R);
+coraCall2(co, v_2319403_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319285_25= co->res;
+Obj v_2319402_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun93, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
+saveCont(co, clofun96, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v_2319284_25= co->res;
+Obj v_2319401_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun93, 3, R);
+saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v_2319283_25= co->res;
+Obj v_2319400_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun93, 4, R);
+saveCont(co, clofun96, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_label);
 return;
 }
 case 6:
 {
-Obj v_2319282_25= co->res;
+Obj v_2319399_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun93, 5, R);
+saveCont(co, clofun96, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v_2319281_25= co->res;
+Obj v_2319398_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun93, 6, R);
+saveCont(co, clofun96, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v_2319280_25= co->res;
+Obj v_2319397_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
-saveCont(co, clofun93, 7, R);
+saveCont(co, clofun96, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319241_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319241_25) {
-Obj v_2319242_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2319242_25;
-Obj v_2319243_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2319243_25;
+Obj v_2319358_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319358_25) {
+Obj v_2319359_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319359_25;
+Obj v_2319360_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319360_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun92, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_args);
+saveCont(co, clofun95, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2319255_25= co->res;
+Obj v_2319372_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v_2319254_25= co->res;
+Obj v_2319371_25= co->res;
 Obj v_nargs = R[1];
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 3:
 {
-Obj v_2319253_25= co->res;
+Obj v_2319370_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
-saveCont(co, clofun92, 2, R);
+saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v_2319252_25= co->res;
+Obj v_2319369_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_nargs;
-saveCont(co, clofun92, 3, R);
-coraCall2(co, v_2319252_25, v_f, closureRef(R[0], 4));
+saveCont(co, clofun95, 3, R);
+coraCall2(co, v_2319369_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v_2319251_25= co->res;
+Obj v_2319368_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun92, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 1));
+saveCont(co, clofun95, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v_2319250_25= co->res;
+Obj v_2319367_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun92, 5, R);
+saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v_2319249_25= co->res;
+Obj v_2319366_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun92, 6, R);
+saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v_2319248_25= co->res;
+Obj v_2319365_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
-saveCont(co, clofun92, 7, R);
+saveCont(co, clofun95, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v_2319247_25= co->res;
+Obj v_2319364_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun92, 8, R);
+saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v_2319246_25= co->res;
+Obj v_2319363_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun92, 9, R);
+saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 11:
 {
-Obj v_2319263_25= co->res;
+Obj v_2319380_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v_2319262_25= co->res;
+Obj v_2319379_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun92, 11, R);
+saveCont(co, clofun95, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v_2319260_25= co->res;
+Obj v_2319377_25= co->res;
 Obj v_nargs = R[1];
 Obj v_args = R[2];
-Obj v_2319261_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
-if (True == v_2319261_25) {
+Obj v_2319378_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2319378_25) {
 R[1] = v_args;
-saveCont(co, clofun92, 12, R);
+saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4363,74 +4368,74 @@ return;
 }
 case 14:
 {
-Obj v_2319259_25= co->res;
+Obj v_2319376_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_nargs;
 R[2] = v_args;
-saveCont(co, clofun92, 13, R);
-coraCall2(co, v_2319259_25, v_f, closureRef(R[0], 4));
+saveCont(co, clofun95, 13, R);
+coraCall2(co, v_2319376_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v_2319258_25= co->res;
+Obj v_2319375_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun92, 14, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 1));
+saveCont(co, clofun95, 14, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v_2319257_25= co->res;
+Obj v_2319374_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun92, 15, R);
+saveCont(co, clofun95, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v_2319256_25= co->res;
+Obj v_2319373_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun92, 16, R);
+saveCont(co, clofun95, 16, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
 return;
 }
 case 18:
 {
-Obj v_2319244_25= co->res;
+Obj v_2319361_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_nargs = v_2319244_25;
-Obj v_2319245_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
-if (True == v_2319245_25) {
+Obj v_nargs = v_2319361_25;
+Obj v_2319362_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2319362_25) {
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
-saveCont(co, clofun92, 10, R);
+saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
-saveCont(co, clofun92, 17, R);
+saveCont(co, clofun95, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4438,7 +4443,7 @@ return;
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4448,13 +4453,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun90, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun93, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4462,52 +4467,52 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun90, 5, R);
+saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v_2319236_25= co->res;
+Obj v_2319353_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319237_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319237_25);
+Obj v_2319354_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319354_25);
 return;
 }
 case 2:
 {
-Obj v_2319235_25= co->res;
+Obj v_2319352_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun90, 1, R);
+saveCont(co, clofun93, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v_2319234_25= co->res;
+Obj v_2319351_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun90, 2, R);
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj v_2319233_25= co->res;
+Obj v_2319350_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun90, 3, R);
+saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v_2319232_25= co->res;
+Obj v_2319349_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun90, 4, R);
+saveCont(co, clofun93, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
@@ -4515,7 +4520,7 @@ return;
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4525,13 +4530,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun88, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun91, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4539,64 +4544,64 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun88, 5, R);
+saveCont(co, clofun91, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v_2319229_25= co->res;
+Obj v_2319346_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319230_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319230_25);
+Obj v_2319347_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319347_25);
 return;
 }
 case 2:
 {
-Obj v_2319228_25= co->res;
+Obj v_2319345_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun88, 1, R);
+saveCont(co, clofun91, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v_2319227_25= co->res;
+Obj v_2319344_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun88, 2, R);
+saveCont(co, clofun91, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2319226_25= co->res;
+Obj v_2319343_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun88, 3, R);
+saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v_2319225_25= co->res;
+Obj v_2319342_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun88, 4, R);
+saveCont(co, clofun91, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4609,7 +4614,7 @@ return;
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4619,30 +4624,30 @@ Obj v_globals = R[3];
 R[1] = v_idx;
 R[2] = v_globals;
 R[3] = v_sym;
-saveCont(co, clofun86, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_globals);
+saveCont(co, clofun89, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2319218_25= co->res;
+Obj v_2319335_25= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v_2319218_25) {
+if (True == v_2319335_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2319219_25 = PRIM_CAR(v_globals);
-Obj v_2319220_25 = PRIM_EQ(v_sym, v_2319219_25);
-if (True == v_2319220_25) {
+Obj v_2319336_25 = PRIM_CAR(v_globals);
+Obj v_2319337_25 = PRIM_EQ(v_sym, v_2319336_25);
+if (True == v_2319337_25) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v_2319221_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v_2319222_25 = PRIM_CDR(v_globals);
+Obj v_2319338_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2319339_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2319221_25, v_sym, v_2319222_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2319338_25, v_sym, v_2319339_25);
 return;
 }
 }
@@ -4650,7 +4655,7 @@ return;
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4658,72 +4663,72 @@ Obj v_sym = R[1];
 Obj v_globals = R[2];
 R[1] = v_sym;
 R[2] = v_globals;
-saveCont(co, clofun85, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_globals);
+saveCont(co, clofun88, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_globals);
 return;
 }
 case 1:
 {
-Obj v_2319214_25= co->res;
+Obj v_2319331_25= co->res;
 Obj v_sym = R[1];
 Obj v_val = R[2];
 Obj v_globals = R[3];
-if (True == v_2319214_25) {
+if (True == v_2319331_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319215_25 = makeCons(co->gc, v_sym, v_val);
-Obj v_2319216_25 = primSet(co, v_globals, v_2319215_25);
-coraReturn(co, v_2319216_25);
+Obj v_2319332_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2319333_25 = primSet(co, v_globals, v_2319332_25);
+coraReturn(co, v_2319333_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2319213_25= co->res;
+Obj v_2319330_25= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v_val = v_2319213_25;
+Obj v_val = v_2319330_25;
 R[1] = v_sym;
 R[2] = v_val;
 R[3] = v_globals;
-saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_sym, v_val);
+saveCont(co, clofun88, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_sym, v_val);
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v_2319206_25 = primGenSym(co);
-Obj v_tmp = v_2319206_25;
+Obj v_2319323_25 = primGenSym(co);
+Obj v_tmp = v_2319323_25;
 R[1] = v_x;
 R[2] = v_tmp;
-saveCont(co, clofun84, 1, R);
+saveCont(co, clofun87, 1, R);
 coraCall1(co, v_k, v_tmp);
 return;
 }
 case 1:
 {
-Obj v_2319207_25= co->res;
+Obj v_2319324_25= co->res;
 Obj v_x = R[1];
 Obj v_tmp = R[2];
-Obj v_2319208_25 = makeCons(co->gc, v_2319207_25, Nil);
-Obj v_2319209_25 = makeCons(co->gc, v_x, v_2319208_25);
-Obj v_2319210_25 = makeCons(co->gc, v_tmp, v_2319209_25);
-Obj v_2319211_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2319210_25);
-coraReturn(co, v_2319211_25);
+Obj v_2319325_25 = makeCons(co->gc, v_2319324_25, Nil);
+Obj v_2319326_25 = makeCons(co->gc, v_x, v_2319325_25);
+Obj v_2319327_25 = makeCons(co->gc, v_tmp, v_2319326_25);
+Obj v_2319328_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319327_25);
+coraReturn(co, v_2319328_25);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4731,13 +4736,13 @@ Obj v_v = R[1];
 Obj v_val = R[2];
 R[1] = v_val;
 R[2] = v_v;
-saveCont(co, clofun83, 3, R);
+saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v_2319204_25= co->res;
+Obj v_2319321_25= co->res;
 Obj v_v = R[1];
 Obj v_cur1 = R[2];
 co->ctx.sp = R;
@@ -4746,157 +4751,157 @@ return;
 }
 case 2:
 {
-Obj v_2319199_25= co->res;
+Obj v_2319316_25= co->res;
 Obj v_val = R[1];
 Obj v_idx = R[2];
 Obj v_v = R[3];
-Obj v_cur = v_2319199_25;
-Obj v_2319200_25 = makeCons(co->gc, v_val, Nil);
-Obj v_2319201_25 = makeCons(co->gc, v_idx, v_2319200_25);
-Obj v_2319202_25 = makeCons(co->gc, v_2319201_25, v_cur);
-Obj v_cur1 = v_2319202_25;
-Obj v_2319203_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_cur = v_2319316_25;
+Obj v_2319317_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2319318_25 = makeCons(co->gc, v_idx, v_2319317_25);
+Obj v_2319319_25 = makeCons(co->gc, v_2319318_25, v_cur);
+Obj v_cur1 = v_2319319_25;
+Obj v_2319320_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
 R[1] = v_v;
 R[2] = v_cur1;
-saveCont(co, clofun83, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2319203_25);
+saveCont(co, clofun86, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2319320_25);
 return;
 }
 case 3:
 {
-Obj v_2319198_25= co->res;
+Obj v_2319315_25= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v_idx = v_2319198_25;
+Obj v_idx = v_2319315_25;
 R[1] = v_val;
 R[2] = v_idx;
 R[3] = v_v;
-saveCont(co, clofun83, 2, R);
+saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317922_25 = R[1];
-Obj v_2317923_25 = R[2];
-Obj v_2317924_25 = makeNative(co->gc, 1, clofun81, 0, 2, v_2317922_25, v_2317923_25);
-Obj v_2319149_25 = PRIM_ISCONS(v_2317923_25);
-if (True == v_2319149_25) {
-Obj v_2319150_25 = PRIM_CAR(v_2317923_25);
-Obj v_2319151_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319150_25);
-if (True == v_2319151_25) {
-Obj v_2319152_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319153_25 = PRIM_ISCONS(v_2319152_25);
-if (True == v_2319153_25) {
-Obj v_2319154_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319155_25 = PRIM_CAR(v_2319154_25);
-Obj v_2319156_25 = PRIM_ISCONS(v_2319155_25);
-if (True == v_2319156_25) {
-Obj v_2319157_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319158_25 = PRIM_CAR(v_2319157_25);
-Obj v_2319159_25 = PRIM_CAR(v_2319158_25);
-Obj v_2319160_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2319159_25);
-if (True == v_2319160_25) {
-Obj v_2319161_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319162_25 = PRIM_CAR(v_2319161_25);
-Obj v_2319163_25 = PRIM_CDR(v_2319162_25);
-Obj v_2319164_25 = PRIM_ISCONS(v_2319163_25);
-if (True == v_2319164_25) {
-Obj v_2319165_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319166_25 = PRIM_CAR(v_2319165_25);
-Obj v_2319167_25 = PRIM_CDR(v_2319166_25);
-Obj v_2319168_25 = PRIM_CAR(v_2319167_25);
-Obj v_params = v_2319168_25;
-Obj v_2319169_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319170_25 = PRIM_CAR(v_2319169_25);
-Obj v_2319171_25 = PRIM_CDR(v_2319170_25);
-Obj v_2319172_25 = PRIM_CDR(v_2319171_25);
-Obj v_2319173_25 = PRIM_ISCONS(v_2319172_25);
-if (True == v_2319173_25) {
-Obj v_2319174_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319175_25 = PRIM_CAR(v_2319174_25);
-Obj v_2319176_25 = PRIM_CDR(v_2319175_25);
-Obj v_2319177_25 = PRIM_CDR(v_2319176_25);
-Obj v_2319178_25 = PRIM_CAR(v_2319177_25);
-Obj v_body = v_2319178_25;
-Obj v_2319179_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319180_25 = PRIM_CAR(v_2319179_25);
-Obj v_2319181_25 = PRIM_CDR(v_2319180_25);
-Obj v_2319182_25 = PRIM_CDR(v_2319181_25);
-Obj v_2319183_25 = PRIM_CDR(v_2319182_25);
-Obj v_2319184_25 = PRIM_EQ(Nil, v_2319183_25);
-if (True == v_2319184_25) {
-Obj v_2319185_25 = PRIM_CDR(v_2317923_25);
-Obj v_2319186_25 = PRIM_CDR(v_2319185_25);
-Obj v_fvs = v_2319186_25;
-R[1] = v_2317922_25;
+Obj v_2318020_25 = R[1];
+Obj v_2318021_25 = R[2];
+Obj v_2318022_25 = makeNative(co->gc, 1, clofun84, 0, 2, v_2318020_25, v_2318021_25);
+Obj v_2319266_25 = PRIM_ISCONS(v_2318021_25);
+if (True == v_2319266_25) {
+Obj v_2319267_25 = PRIM_CAR(v_2318021_25);
+Obj v_2319268_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319267_25);
+if (True == v_2319268_25) {
+Obj v_2319269_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319270_25 = PRIM_ISCONS(v_2319269_25);
+if (True == v_2319270_25) {
+Obj v_2319271_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319272_25 = PRIM_CAR(v_2319271_25);
+Obj v_2319273_25 = PRIM_ISCONS(v_2319272_25);
+if (True == v_2319273_25) {
+Obj v_2319274_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319275_25 = PRIM_CAR(v_2319274_25);
+Obj v_2319276_25 = PRIM_CAR(v_2319275_25);
+Obj v_2319277_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319276_25);
+if (True == v_2319277_25) {
+Obj v_2319278_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319279_25 = PRIM_CAR(v_2319278_25);
+Obj v_2319280_25 = PRIM_CDR(v_2319279_25);
+Obj v_2319281_25 = PRIM_ISCONS(v_2319280_25);
+if (True == v_2319281_25) {
+Obj v_2319282_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319283_25 = PRIM_CAR(v_2319282_25);
+Obj v_2319284_25 = PRIM_CDR(v_2319283_25);
+Obj v_2319285_25 = PRIM_CAR(v_2319284_25);
+Obj v_params = v_2319285_25;
+Obj v_2319286_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319287_25 = PRIM_CAR(v_2319286_25);
+Obj v_2319288_25 = PRIM_CDR(v_2319287_25);
+Obj v_2319289_25 = PRIM_CDR(v_2319288_25);
+Obj v_2319290_25 = PRIM_ISCONS(v_2319289_25);
+if (True == v_2319290_25) {
+Obj v_2319291_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319292_25 = PRIM_CAR(v_2319291_25);
+Obj v_2319293_25 = PRIM_CDR(v_2319292_25);
+Obj v_2319294_25 = PRIM_CDR(v_2319293_25);
+Obj v_2319295_25 = PRIM_CAR(v_2319294_25);
+Obj v_body = v_2319295_25;
+Obj v_2319296_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319297_25 = PRIM_CAR(v_2319296_25);
+Obj v_2319298_25 = PRIM_CDR(v_2319297_25);
+Obj v_2319299_25 = PRIM_CDR(v_2319298_25);
+Obj v_2319300_25 = PRIM_CDR(v_2319299_25);
+Obj v_2319301_25 = PRIM_EQ(Nil, v_2319300_25);
+if (True == v_2319301_25) {
+Obj v_2319302_25 = PRIM_CDR(v_2318021_25);
+Obj v_2319303_25 = PRIM_CDR(v_2319302_25);
+Obj v_fvs = v_2319303_25;
+R[1] = v_2318020_25;
 R[2] = v_params;
 R[3] = v_fvs;
-saveCont(co, clofun82, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2317922_25, v_body);
+saveCont(co, clofun85, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2318020_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317924_25);
+coraCall0(co, v_2318022_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319192_25= co->res;
+Obj v_2319309_25= co->res;
 Obj v_nframe = R[1];
 Obj v_fvs = R[2];
 Obj v_cur = R[3];
-Obj v_2319193_25 = makeCons(co->gc, v_nframe, v_fvs);
-Obj v_2319194_25 = makeCons(co->gc, v_2319192_25, v_2319193_25);
-Obj v_2319195_25 = makeCons(co->gc, v_cur, v_2319194_25);
-Obj v_2319196_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2319195_25);
-coraReturn(co, v_2319196_25);
+Obj v_2319310_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2319311_25 = makeCons(co->gc, v_2319309_25, v_2319310_25);
+Obj v_2319312_25 = makeCons(co->gc, v_cur, v_2319311_25);
+Obj v_2319313_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319312_25);
+coraReturn(co, v_2319313_25);
 return;
 }
 case 2:
 {
-Obj v_2319191_25= co->res;
+Obj v_2319308_25= co->res;
 Obj v_params = R[1];
 Obj v_nframe = R[2];
 Obj v_fvs = R[3];
@@ -4904,85 +4909,85 @@ Obj v_cur = R[4];
 R[1] = v_nframe;
 R[2] = v_fvs;
 R[3] = v_cur;
-saveCont(co, clofun82, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_params);
+saveCont(co, clofun85, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_params);
 return;
 }
 case 3:
 {
-Obj v_2319190_25= co->res;
-Obj v_2317922_25 = R[1];
+Obj v_2319307_25= co->res;
+Obj v_2318020_25 = R[1];
 Obj v_body2 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
 Obj v_cur = R[5];
-Obj v_nframe = v_2319190_25;
+Obj v_nframe = v_2319307_25;
 R[1] = v_params;
 R[2] = v_nframe;
 R[3] = v_fvs;
 R[4] = v_cur;
-saveCont(co, clofun82, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2317922_25, v_body2);
+saveCont(co, clofun85, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2318020_25, v_body2);
 return;
 }
 case 4:
 {
-Obj v_2319189_25= co->res;
-Obj v_2317922_25 = R[1];
+Obj v_2319306_25= co->res;
+Obj v_2318020_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
 Obj v_cur = R[4];
-Obj v_body2 = v_2319189_25;
-R[1] = v_2317922_25;
+Obj v_body2 = v_2319306_25;
+R[1] = v_2318020_25;
 R[2] = v_body2;
 R[3] = v_params;
 R[4] = v_fvs;
 R[5] = v_cur;
-saveCont(co, clofun82, 3, R);
+saveCont(co, clofun85, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_body2);
 return;
 }
 case 5:
 {
-Obj v_2319188_25= co->res;
+Obj v_2319305_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2317922_25 = R[2];
+Obj v_2318020_25 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
-Obj v_cur = v_2319188_25;
-R[1] = v_2317922_25;
+Obj v_cur = v_2319305_25;
+R[1] = v_2318020_25;
 R[2] = v_params;
 R[3] = v_fvs;
 R[4] = v_cur;
-saveCont(co, clofun82, 4, R);
+saveCont(co, clofun85, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v_params, v_body1);
 return;
 }
 case 6:
 {
-Obj v_2319187_25= co->res;
-Obj v_2317922_25 = R[1];
+Obj v_2319304_25= co->res;
+Obj v_2318020_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
-Obj v_body1 = v_2319187_25;
+Obj v_body1 = v_2319304_25;
 R[1] = v_body1;
-R[2] = v_2317922_25;
+R[2] = v_2318020_25;
 R[3] = v_params;
 R[4] = v_fvs;
-saveCont(co, clofun82, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2317922_25, MAKE_NUMBER(0));
+saveCont(co, clofun85, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2318020_25, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319147_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319147_25) {
-saveCont(co, clofun81, 1, R);
+Obj v_2319264_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319264_25) {
+saveCont(co, clofun84, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
@@ -4992,74 +4997,74 @@ return;
 }
 case 1:
 {
-Obj v_2319148_25= co->res;
+Obj v_2319265_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319148_25, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319265_25, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_lam);
+saveCont(co, clofun83, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_lam);
 return;
 }
 case 1:
 {
-Obj v_2319145_25= co->res;
-Obj v_2319144_25 = R[1];
+Obj v_2319262_25= co->res;
+Obj v_2319261_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), makeNative(co->gc, 3, clofun79, 2, 0), v_2319144_25, v_2319145_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun82, 2, 0), v_2319261_25, v_2319262_25);
 return;
 }
 case 2:
 {
-Obj v_2319139_25= co->res;
+Obj v_2319256_25= co->res;
 Obj v_lam = R[1];
-Obj v_nargs = v_2319139_25;
-Obj v_2319144_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
-R[1] = v_2319144_25;
-saveCont(co, clofun80, 1, R);
+Obj v_nargs = v_2319256_25;
+Obj v_2319261_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2319261_25;
+saveCont(co, clofun83, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj v_2319138_25= co->res;
+Obj v_2319255_25= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun80, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2319138_25);
+saveCont(co, clofun83, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2319255_25);
 return;
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_acc = R[1];
 Obj v_x = R[2];
 R[1] = v_acc;
-saveCont(co, clofun79, 2, R);
+saveCont(co, clofun82, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
 return;
 }
 case 1:
 {
-Obj v_2319141_25= co->res;
+Obj v_2319258_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319142_25 = PRIM_ADD(v_2319141_25, MAKE_NUMBER(1));
-Obj v_len = v_2319142_25;
-Obj v_2319143_25 = PRIM_GT(v_len, v_acc);
-if (True == v_2319143_25) {
+Obj v_2319259_25 = PRIM_ADD(v_2319258_25, MAKE_NUMBER(1));
+Obj v_len = v_2319259_25;
+Obj v_2319260_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2319260_25) {
 coraReturn(co, v_len);
 return;
 } else {
@@ -5069,79 +5074,79 @@ return;
 }
 case 2:
 {
-Obj v_2319140_25= co->res;
+Obj v_2319257_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_2319140_25);
+saveCont(co, clofun82, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2319257_25);
 return;
 }
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_params = R[1];
 Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun77, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun80, 2, 1, v_params));
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body1 = R[1];
 Obj v_conts = R[2];
 R[1] = v_body1;
-saveCont(co, clofun77, 1, R);
+saveCont(co, clofun80, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_conts);
 return;
 }
 case 1:
 {
-Obj v_2319133_25= co->res;
+Obj v_2319250_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2319134_25 = makeCons(co->gc, v_body1, v_2319133_25);
-Obj v_2319135_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319134_25);
-Obj v_2319136_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2319135_25);
-coraReturn(co, v_2319136_25);
+Obj v_2319251_25 = makeCons(co->gc, v_body1, v_2319250_25);
+Obj v_2319252_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319251_25);
+Obj v_2319253_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319252_25);
+coraReturn(co, v_2319253_25);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317916_25 = R[1];
-Obj v_2317917_25 = R[2];
-Obj v_2317918_25 = R[3];
-Obj v_2317919_25 = R[4];
-Obj v_2319127_25 = PRIM_EQ(Nil, v_2317916_25);
-if (True == v_2319127_25) {
+Obj v_2318014_25 = R[1];
+Obj v_2318015_25 = R[2];
+Obj v_2318016_25 = R[3];
+Obj v_2318017_25 = R[4];
+Obj v_2319244_25 = PRIM_EQ(Nil, v_2318014_25);
+if (True == v_2319244_25) {
 co->ctx.sp = R;
-coraCall2(co, v_2317919_25, v_2317918_25, v_2317917_25);
+coraCall2(co, v_2318017_25, v_2318016_25, v_2318015_25);
 return;
 } else {
-Obj v_2319128_25 = PRIM_ISCONS(v_2317916_25);
-if (True == v_2319128_25) {
-Obj v_2319129_25 = PRIM_CAR(v_2317916_25);
-Obj v_f = v_2319129_25;
-Obj v_2319130_25 = PRIM_CDR(v_2317916_25);
-Obj v_args = v_2319130_25;
+Obj v_2319245_25 = PRIM_ISCONS(v_2318014_25);
+if (True == v_2319245_25) {
+Obj v_2319246_25 = PRIM_CAR(v_2318014_25);
+Obj v_f = v_2319246_25;
+Obj v_2319247_25 = PRIM_CDR(v_2318014_25);
+Obj v_args = v_2319247_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2317917_25, makeNative(co->gc, 3, clofun75, 2, 3, v_args, v_2317918_25, v_2317919_25));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2318015_25, makeNative(co->gc, 3, clofun78, 2, 3, v_args, v_2318016_25, v_2318017_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5149,131 +5154,131 @@ return;
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_f1 = R[1];
 Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun74, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun77, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v_2319131_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v_2319248_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2319131_25, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v_2319248_25, v_conts2);
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317910_25 = R[1];
-Obj v_2317911_25 = R[2];
-Obj v_2317912_25 = R[3];
-Obj v_2318062_25 = makeNative(co->gc, 2, clofun72, 1, 3, v_2317910_25, v_2317911_25, v_2317912_25);
-Obj v_2319124_25 = primIsSymbol(v_2317910_25);
-if (True == v_2319124_25) {
+Obj v_2318008_25 = R[1];
+Obj v_2318009_25 = R[2];
+Obj v_2318010_25 = R[3];
+Obj v_2318163_25 = makeNative(co->gc, 2, clofun75, 1, 3, v_2318008_25, v_2318009_25, v_2318010_25);
+Obj v_2319241_25 = primIsSymbol(v_2318008_25);
+if (True == v_2319241_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318062_25, True);
+coraCall1(co, v_2318163_25, True);
 return;
 } else {
-R[1] = v_2318062_25;
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317910_25);
+R[1] = v_2318163_25;
+saveCont(co, clofun76, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318008_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319125_25= co->res;
-Obj v_2318062_25 = R[1];
-if (True == v_2319125_25) {
+Obj v_2319242_25= co->res;
+Obj v_2318163_25 = R[1];
+if (True == v_2319242_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318062_25, True);
+coraCall1(co, v_2318163_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318062_25, False);
+coraCall1(co, v_2318163_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318063_25 = R[1];
-if (True == v_2318063_25) {
+Obj v_2318164_25 = R[1];
+if (True == v_2318164_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2317914_25 = makeNative(co->gc, 1, clofun70, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2319100_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319100_25) {
-Obj v_2319101_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319102_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319101_25);
-if (True == v_2319102_25) {
-Obj v_2319103_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319104_25 = PRIM_ISCONS(v_2319103_25);
-if (True == v_2319104_25) {
-Obj v_2319105_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319106_25 = PRIM_CAR(v_2319105_25);
-Obj v_exp = v_2319106_25;
-Obj v_2319107_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319108_25 = PRIM_CDR(v_2319107_25);
-Obj v_2319109_25 = PRIM_ISCONS(v_2319108_25);
-if (True == v_2319109_25) {
-Obj v_2319110_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319111_25 = PRIM_CDR(v_2319110_25);
-Obj v_2319112_25 = PRIM_CAR(v_2319111_25);
-Obj v_cont = v_2319112_25;
-Obj v_2319113_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319114_25 = PRIM_CDR(v_2319113_25);
-Obj v_2319115_25 = PRIM_CDR(v_2319114_25);
-Obj v_2319116_25 = PRIM_EQ(Nil, v_2319115_25);
-if (True == v_2319116_25) {
+Obj v_2318012_25 = makeNative(co->gc, 1, clofun73, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319217_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319217_25) {
+Obj v_2319218_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319219_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319218_25);
+if (True == v_2319219_25) {
+Obj v_2319220_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319221_25 = PRIM_ISCONS(v_2319220_25);
+if (True == v_2319221_25) {
+Obj v_2319222_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319223_25 = PRIM_CAR(v_2319222_25);
+Obj v_exp = v_2319223_25;
+Obj v_2319224_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319225_25 = PRIM_CDR(v_2319224_25);
+Obj v_2319226_25 = PRIM_ISCONS(v_2319225_25);
+if (True == v_2319226_25) {
+Obj v_2319227_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319228_25 = PRIM_CDR(v_2319227_25);
+Obj v_2319229_25 = PRIM_CAR(v_2319228_25);
+Obj v_cont = v_2319229_25;
+Obj v_2319230_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319231_25 = PRIM_CDR(v_2319230_25);
+Obj v_2319232_25 = PRIM_CDR(v_2319231_25);
+Obj v_2319233_25 = PRIM_EQ(Nil, v_2319232_25);
+if (True == v_2319233_25) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun71, 2, 2, closureRef(R[0], 2), v_exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun74, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317914_25);
+coraCall0(co, v_2318012_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317914_25);
+coraCall0(co, v_2318012_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317914_25);
+coraCall0(co, v_2318012_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317914_25);
+coraCall0(co, v_2318012_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317914_25);
+coraCall0(co, v_2318012_25);
 return;
 }
 }
@@ -5281,7 +5286,7 @@ return;
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5289,152 +5294,152 @@ Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
 R[1] = v_cont1;
 R[2] = v_conts1;
-saveCont(co, clofun71, 2, R);
+saveCont(co, clofun74, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
 return;
 }
 case 1:
 {
-Obj v_2319118_25= co->res;
+Obj v_2319235_25= co->res;
 Obj v_fvs = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v_2319119_25 = PRIM_ADD(v_2319118_25, MAKE_NUMBER(1));
-Obj v_2319120_25 = makeCons(co->gc, v_2319119_25, v_fvs);
-Obj v_2319121_25 = makeCons(co->gc, closureRef(R[0], 1), v_2319120_25);
-Obj v_2319122_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319121_25);
-Obj v_2319123_25 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v_2319236_25 = PRIM_ADD(v_2319235_25, MAKE_NUMBER(1));
+Obj v_2319237_25 = makeCons(co->gc, v_2319236_25, v_fvs);
+Obj v_2319238_25 = makeCons(co->gc, closureRef(R[0], 1), v_2319237_25);
+Obj v_2319239_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319238_25);
+Obj v_2319240_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2319122_25, v_2319123_25);
+coraCall2(co, closureRef(R[0], 0), v_2319239_25, v_2319240_25);
 return;
 }
 case 2:
 {
-Obj v_2319117_25= co->res;
+Obj v_2319234_25= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v_fvs = v_2319117_25;
+Obj v_fvs = v_2319234_25;
 R[1] = v_fvs;
 R[2] = v_cont1;
 R[3] = v_conts1;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v_conts1);
+saveCont(co, clofun74, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_conts1);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319096_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319096_25) {
-Obj v_2319097_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2319097_25;
-Obj v_2319098_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2319098_25;
-Obj v_2319099_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319213_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319213_25) {
+Obj v_2319214_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319214_25;
+Obj v_2319215_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319215_25;
+Obj v_2319216_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2319099_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2319216_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317902_25 = R[1];
-Obj v_2317903_25 = R[2];
-R[1] = v_2317903_25;
-R[2] = v_2317902_25;
-saveCont(co, clofun69, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317903_25);
+Obj v_2318000_25 = R[1];
+Obj v_2318001_25 = R[2];
+R[1] = v_2318001_25;
+R[2] = v_2318000_25;
+saveCont(co, clofun72, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318001_25);
 return;
 }
 case 1:
 {
-Obj v_2319091_25= co->res;
+Obj v_2319208_25= co->res;
 Obj v_args = R[1];
-Obj v_2319092_25 = makeCons(co->gc, v_2319091_25, Nil);
-Obj v_2319093_25 = makeCons(co->gc, v_args, v_2319092_25);
-Obj v_2319094_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2319093_25);
-coraReturn(co, v_2319094_25);
+Obj v_2319209_25 = makeCons(co->gc, v_2319208_25, Nil);
+Obj v_2319210_25 = makeCons(co->gc, v_args, v_2319209_25);
+Obj v_2319211_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319210_25);
+coraReturn(co, v_2319211_25);
 return;
 }
 case 2:
 {
-Obj v_2319019_25= co->res;
-Obj v_2317903_25 = R[1];
-Obj v_2317902_25 = R[2];
-if (True == v_2319019_25) {
-coraReturn(co, v_2317903_25);
-return;
-} else {
-Obj v_2319020_25 = primIsSymbol(v_2317903_25);
-if (True == v_2319020_25) {
-coraReturn(co, v_2317903_25);
-return;
-} else {
-Obj v_2317906_25 = makeNative(co->gc, 4, clofun68, 0, 2, v_2317903_25, v_2317902_25);
-Obj v_2319074_25 = PRIM_ISCONS(v_2317903_25);
-if (True == v_2319074_25) {
-Obj v_2319075_25 = PRIM_CAR(v_2317903_25);
-Obj v_2319076_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2319075_25);
-if (True == v_2319076_25) {
-Obj v_2319077_25 = PRIM_CDR(v_2317903_25);
-Obj v_2319078_25 = PRIM_ISCONS(v_2319077_25);
-if (True == v_2319078_25) {
-Obj v_2319079_25 = PRIM_CDR(v_2317903_25);
-Obj v_2319080_25 = PRIM_CAR(v_2319079_25);
-Obj v_args = v_2319080_25;
-Obj v_2319081_25 = PRIM_CDR(v_2317903_25);
-Obj v_2319082_25 = PRIM_CDR(v_2319081_25);
-Obj v_2319083_25 = PRIM_ISCONS(v_2319082_25);
-if (True == v_2319083_25) {
-Obj v_2319084_25 = PRIM_CDR(v_2317903_25);
-Obj v_2319085_25 = PRIM_CDR(v_2319084_25);
-Obj v_2319086_25 = PRIM_CAR(v_2319085_25);
-Obj v_body = v_2319086_25;
-Obj v_2319087_25 = PRIM_CDR(v_2317903_25);
-Obj v_2319088_25 = PRIM_CDR(v_2319087_25);
-Obj v_2319089_25 = PRIM_CDR(v_2319088_25);
-Obj v_2319090_25 = PRIM_EQ(Nil, v_2319089_25);
-if (True == v_2319090_25) {
+Obj v_2319136_25= co->res;
+Obj v_2318001_25 = R[1];
+Obj v_2318000_25 = R[2];
+if (True == v_2319136_25) {
+coraReturn(co, v_2318001_25);
+return;
+} else {
+Obj v_2319137_25 = primIsSymbol(v_2318001_25);
+if (True == v_2319137_25) {
+coraReturn(co, v_2318001_25);
+return;
+} else {
+Obj v_2318004_25 = makeNative(co->gc, 4, clofun71, 0, 2, v_2318001_25, v_2318000_25);
+Obj v_2319191_25 = PRIM_ISCONS(v_2318001_25);
+if (True == v_2319191_25) {
+Obj v_2319192_25 = PRIM_CAR(v_2318001_25);
+Obj v_2319193_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319192_25);
+if (True == v_2319193_25) {
+Obj v_2319194_25 = PRIM_CDR(v_2318001_25);
+Obj v_2319195_25 = PRIM_ISCONS(v_2319194_25);
+if (True == v_2319195_25) {
+Obj v_2319196_25 = PRIM_CDR(v_2318001_25);
+Obj v_2319197_25 = PRIM_CAR(v_2319196_25);
+Obj v_args = v_2319197_25;
+Obj v_2319198_25 = PRIM_CDR(v_2318001_25);
+Obj v_2319199_25 = PRIM_CDR(v_2319198_25);
+Obj v_2319200_25 = PRIM_ISCONS(v_2319199_25);
+if (True == v_2319200_25) {
+Obj v_2319201_25 = PRIM_CDR(v_2318001_25);
+Obj v_2319202_25 = PRIM_CDR(v_2319201_25);
+Obj v_2319203_25 = PRIM_CAR(v_2319202_25);
+Obj v_body = v_2319203_25;
+Obj v_2319204_25 = PRIM_CDR(v_2318001_25);
+Obj v_2319205_25 = PRIM_CDR(v_2319204_25);
+Obj v_2319206_25 = PRIM_CDR(v_2319205_25);
+Obj v_2319207_25 = PRIM_EQ(Nil, v_2319206_25);
+if (True == v_2319207_25) {
 R[1] = v_args;
-saveCont(co, clofun69, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2317902_25, v_body);
+saveCont(co, clofun72, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2318000_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317906_25);
+coraCall0(co, v_2318004_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317906_25);
+coraCall0(co, v_2318004_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317906_25);
+coraCall0(co, v_2318004_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317906_25);
+coraCall0(co, v_2318004_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317906_25);
+coraCall0(co, v_2318004_25);
 return;
 }
 }
@@ -5443,368 +5448,368 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317907_25 = makeNative(co->gc, 3, clofun67, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319049_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319049_25) {
-Obj v_2319050_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319051_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2319050_25);
-if (True == v_2319051_25) {
-Obj v_2319052_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319053_25 = PRIM_ISCONS(v_2319052_25);
-if (True == v_2319053_25) {
-Obj v_2319054_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319055_25 = PRIM_CAR(v_2319054_25);
-Obj v_val = v_2319055_25;
-Obj v_2319056_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319057_25 = PRIM_CDR(v_2319056_25);
-Obj v_2319058_25 = PRIM_ISCONS(v_2319057_25);
-if (True == v_2319058_25) {
-Obj v_2319059_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319060_25 = PRIM_CDR(v_2319059_25);
-Obj v_2319061_25 = PRIM_CAR(v_2319060_25);
-Obj v_body = v_2319061_25;
-Obj v_2319062_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319063_25 = PRIM_CDR(v_2319062_25);
-Obj v_2319064_25 = PRIM_CDR(v_2319063_25);
-Obj v_2319065_25 = PRIM_EQ(Nil, v_2319064_25);
-if (True == v_2319065_25) {
+Obj v_2318005_25 = makeNative(co->gc, 3, clofun70, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319166_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319166_25) {
+Obj v_2319167_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319168_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319167_25);
+if (True == v_2319168_25) {
+Obj v_2319169_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319170_25 = PRIM_ISCONS(v_2319169_25);
+if (True == v_2319170_25) {
+Obj v_2319171_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319172_25 = PRIM_CAR(v_2319171_25);
+Obj v_val = v_2319172_25;
+Obj v_2319173_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319174_25 = PRIM_CDR(v_2319173_25);
+Obj v_2319175_25 = PRIM_ISCONS(v_2319174_25);
+if (True == v_2319175_25) {
+Obj v_2319176_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319177_25 = PRIM_CDR(v_2319176_25);
+Obj v_2319178_25 = PRIM_CAR(v_2319177_25);
+Obj v_body = v_2319178_25;
+Obj v_2319179_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319180_25 = PRIM_CDR(v_2319179_25);
+Obj v_2319181_25 = PRIM_CDR(v_2319180_25);
+Obj v_2319182_25 = PRIM_EQ(Nil, v_2319181_25);
+if (True == v_2319182_25) {
 R[1] = v_body;
 R[2] = v_val;
-saveCont(co, clofun68, 5, R);
+saveCont(co, clofun71, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317907_25);
+coraCall0(co, v_2318005_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317907_25);
+coraCall0(co, v_2318005_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317907_25);
+coraCall0(co, v_2318005_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317907_25);
+coraCall0(co, v_2318005_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317907_25);
+coraCall0(co, v_2318005_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319070_25= co->res;
+Obj v_2319187_25= co->res;
 Obj v_fvs2 = R[1];
 Obj v_val = R[2];
-Obj v_2319071_25 = makeCons(co->gc, v_2319070_25, v_fvs2);
-Obj v_2319072_25 = makeCons(co->gc, v_val, v_2319071_25);
-Obj v_2319073_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2319072_25);
-coraReturn(co, v_2319073_25);
+Obj v_2319188_25 = makeCons(co->gc, v_2319187_25, v_fvs2);
+Obj v_2319189_25 = makeCons(co->gc, v_val, v_2319188_25);
+Obj v_2319190_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2319189_25);
+coraReturn(co, v_2319190_25);
 return;
 }
 case 2:
 {
-Obj v_2319069_25= co->res;
+Obj v_2319186_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
-Obj v_fvs2 = v_2319069_25;
+Obj v_fvs2 = v_2319186_25;
 R[1] = v_fvs2;
 R[2] = v_val;
-saveCont(co, clofun68, 1, R);
+saveCont(co, clofun71, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_fvs1, v_body);
 return;
 }
 case 3:
 {
-Obj v_2319068_25= co->res;
+Obj v_2319185_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
-saveCont(co, clofun68, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319068_25, v_fvs1);
+saveCont(co, clofun71, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319185_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2319067_25= co->res;
+Obj v_2319184_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
-Obj v_fvs1 = v_2319067_25;
+Obj v_fvs1 = v_2319184_25;
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
-saveCont(co, clofun68, 3, R);
+saveCont(co, clofun71, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v_2319066_25= co->res;
+Obj v_2319183_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
 R[1] = v_body;
 R[2] = v_val;
-saveCont(co, clofun68, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2319066_25, v_val);
+saveCont(co, clofun71, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2319183_25, v_val);
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317908_25 = makeNative(co->gc, 3, clofun66, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319026_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319026_25) {
-Obj v_2319027_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319028_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319027_25);
-if (True == v_2319028_25) {
-Obj v_2319029_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319030_25 = PRIM_ISCONS(v_2319029_25);
-if (True == v_2319030_25) {
-Obj v_2319031_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319032_25 = PRIM_CAR(v_2319031_25);
-Obj v_exp = v_2319032_25;
-Obj v_2319033_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319034_25 = PRIM_CDR(v_2319033_25);
-Obj v_2319035_25 = PRIM_ISCONS(v_2319034_25);
-if (True == v_2319035_25) {
-Obj v_2319036_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319037_25 = PRIM_CDR(v_2319036_25);
-Obj v_2319038_25 = PRIM_CAR(v_2319037_25);
-Obj v_cont = v_2319038_25;
-Obj v_2319039_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319040_25 = PRIM_CDR(v_2319039_25);
-Obj v_2319041_25 = PRIM_CDR(v_2319040_25);
-Obj v_2319042_25 = PRIM_EQ(Nil, v_2319041_25);
-if (True == v_2319042_25) {
+Obj v_2318006_25 = makeNative(co->gc, 3, clofun69, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319143_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319143_25) {
+Obj v_2319144_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319145_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319144_25);
+if (True == v_2319145_25) {
+Obj v_2319146_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319147_25 = PRIM_ISCONS(v_2319146_25);
+if (True == v_2319147_25) {
+Obj v_2319148_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319149_25 = PRIM_CAR(v_2319148_25);
+Obj v_exp = v_2319149_25;
+Obj v_2319150_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319151_25 = PRIM_CDR(v_2319150_25);
+Obj v_2319152_25 = PRIM_ISCONS(v_2319151_25);
+if (True == v_2319152_25) {
+Obj v_2319153_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319154_25 = PRIM_CDR(v_2319153_25);
+Obj v_2319155_25 = PRIM_CAR(v_2319154_25);
+Obj v_cont = v_2319155_25;
+Obj v_2319156_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319157_25 = PRIM_CDR(v_2319156_25);
+Obj v_2319158_25 = PRIM_CDR(v_2319157_25);
+Obj v_2319159_25 = PRIM_EQ(Nil, v_2319158_25);
+if (True == v_2319159_25) {
 R[1] = v_exp;
 R[2] = v_cont;
-saveCont(co, clofun67, 3, R);
+saveCont(co, clofun70, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318006_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318006_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318006_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318006_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318006_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319045_25= co->res;
-Obj v_2319044_25 = R[1];
-Obj v_2319046_25 = makeCons(co->gc, v_2319045_25, Nil);
-Obj v_2319047_25 = makeCons(co->gc, v_2319044_25, v_2319046_25);
-Obj v_2319048_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319047_25);
-coraReturn(co, v_2319048_25);
+Obj v_2319162_25= co->res;
+Obj v_2319161_25 = R[1];
+Obj v_2319163_25 = makeCons(co->gc, v_2319162_25, Nil);
+Obj v_2319164_25 = makeCons(co->gc, v_2319161_25, v_2319163_25);
+Obj v_2319165_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319164_25);
+coraReturn(co, v_2319165_25);
 return;
 }
 case 2:
 {
-Obj v_2319044_25= co->res;
+Obj v_2319161_25= co->res;
 Obj v_cont = R[1];
-R[1] = v_2319044_25;
-saveCont(co, clofun67, 1, R);
+R[1] = v_2319161_25;
+saveCont(co, clofun70, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj v_2319043_25= co->res;
+Obj v_2319160_25= co->res;
 Obj v_exp = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
-saveCont(co, clofun67, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319043_25, v_exp);
+saveCont(co, clofun70, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319160_25, v_exp);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319021_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319021_25) {
-Obj v_2319022_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2319022_25;
-Obj v_2319023_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2319023_25;
+Obj v_2319138_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319138_25) {
+Obj v_2319139_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319139_25;
+Obj v_2319140_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319140_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun66, 1, R);
+saveCont(co, clofun69, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2319024_25= co->res;
+Obj v_2319141_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2319025_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319142_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2319024_25, v_2319025_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319141_25, v_2319142_25);
 return;
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317897_25 = R[1];
-Obj v_2317898_25 = R[2];
-Obj v_2317899_25 = R[3];
-Obj v_2318996_25 = PRIM_EQ(Nil, v_2317897_25);
-if (True == v_2318996_25) {
-R[1] = v_2317899_25;
-saveCont(co, clofun65, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317898_25);
+Obj v_2317995_25 = R[1];
+Obj v_2317996_25 = R[2];
+Obj v_2317997_25 = R[3];
+Obj v_2319113_25 = PRIM_EQ(Nil, v_2317995_25);
+if (True == v_2319113_25) {
+R[1] = v_2317997_25;
+saveCont(co, clofun68, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317996_25);
 return;
 } else {
-Obj v_2319014_25 = PRIM_ISCONS(v_2317897_25);
-if (True == v_2319014_25) {
-Obj v_2319015_25 = PRIM_CAR(v_2317897_25);
-Obj v_hd = v_2319015_25;
-Obj v_2319016_25 = PRIM_CDR(v_2317897_25);
-Obj v_tl = v_2319016_25;
+Obj v_2319131_25 = PRIM_ISCONS(v_2317995_25);
+if (True == v_2319131_25) {
+Obj v_2319132_25 = PRIM_CAR(v_2317995_25);
+Obj v_hd = v_2319132_25;
+Obj v_2319133_25 = PRIM_CDR(v_2317995_25);
+Obj v_tl = v_2319133_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun64, 1, 3, v_tl, v_2317898_25, v_2317899_25));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun67, 1, 3, v_tl, v_2317996_25, v_2317997_25));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319012_25= co->res;
-Obj v_2318053_25 = R[1];
-Obj v_2319013_25 = PRIM_EQ(v_2319012_25, getBinding(co, packageID, 91).name);
-if (True == v_2319013_25) {
+Obj v_2319129_25= co->res;
+Obj v_2318154_25 = R[1];
+Obj v_2319130_25 = PRIM_EQ(v_2319129_25, getBinding(co, packageID, 90).name);
+if (True == v_2319130_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318053_25, True);
+coraCall1(co, v_2318154_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318053_25, False);
+coraCall1(co, v_2318154_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2319011_25= co->res;
+Obj v_2319128_25= co->res;
 Obj v_exp = R[1];
-Obj v_2318053_25 = R[2];
-if (True == v_2319011_25) {
-R[1] = v_2318053_25;
-saveCont(co, clofun65, 1, R);
+Obj v_2318154_25 = R[2];
+if (True == v_2319128_25) {
+R[1] = v_2318154_25;
+saveCont(co, clofun68, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318053_25, False);
+coraCall1(co, v_2318154_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2318997_25= co->res;
-Obj v_2317899_25 = R[1];
-Obj v_exp = v_2318997_25;
-Obj v_2318053_25 = makeNative(co->gc, 2, clofun63, 1, 2, v_exp, v_2317899_25);
-Obj v_2319010_25 = PRIM_CAR(v_exp);
+Obj v_2319114_25= co->res;
+Obj v_2317997_25 = R[1];
+Obj v_exp = v_2319114_25;
+Obj v_2318154_25 = makeNative(co->gc, 2, clofun66, 1, 2, v_exp, v_2317997_25);
+Obj v_2319127_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2318053_25;
-saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2319010_25);
+R[2] = v_2318154_25;
+saveCont(co, clofun68, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2319127_25);
 return;
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v_2319017_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v_2319134_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2319017_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2319134_25, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318054_25 = R[1];
-if (True == v_2318054_25) {
+Obj v_2318155_25 = R[1];
+if (True == v_2318155_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2318998_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
-if (True == v_2318998_25) {
-Obj v_2318999_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2319000_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318999_25);
-coraReturn(co, v_2319000_25);
+Obj v_2319115_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
+if (True == v_2319115_25) {
+Obj v_2319116_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2319117_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2319116_25);
+coraReturn(co, v_2319117_25);
 return;
 } else {
-Obj v_2319001_25 = primGenSym(co);
-Obj v_val = v_2319001_25;
-Obj v_2319002_25 = makeCons(co->gc, v_val, Nil);
-R[1] = v_2319002_25;
-saveCont(co, clofun63, 1, R);
+Obj v_2319118_25 = primGenSym(co);
+Obj v_val = v_2319118_25;
+Obj v_2319119_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2319119_25;
+saveCont(co, clofun66, 1, R);
 coraCall1(co, closureRef(R[0], 1), v_val);
 return;
 }
@@ -5812,145 +5817,145 @@ return;
 }
 case 1:
 {
-Obj v_2319003_25= co->res;
-Obj v_2319002_25 = R[1];
-Obj v_2319004_25 = makeCons(co->gc, v_2319003_25, Nil);
-Obj v_2319005_25 = makeCons(co->gc, v_2319002_25, v_2319004_25);
-Obj v_2319006_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2319005_25);
-Obj v_2319007_25 = makeCons(co->gc, v_2319006_25, Nil);
-Obj v_2319008_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319007_25);
-Obj v_2319009_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319008_25);
-coraReturn(co, v_2319009_25);
+Obj v_2319120_25= co->res;
+Obj v_2319119_25 = R[1];
+Obj v_2319121_25 = makeCons(co->gc, v_2319120_25, Nil);
+Obj v_2319122_25 = makeCons(co->gc, v_2319119_25, v_2319121_25);
+Obj v_2319123_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2319122_25);
+Obj v_2319124_25 = makeCons(co->gc, v_2319123_25, Nil);
+Obj v_2319125_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319124_25);
+Obj v_2319126_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319125_25);
+coraReturn(co, v_2319126_25);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317888_25 = R[1];
-Obj v_2317889_25 = R[2];
-Obj v_2318042_25 = makeNative(co->gc, 2, clofun61, 1, 2, v_2317888_25, v_2317889_25);
-Obj v_2318993_25 = primIsSymbol(v_2317888_25);
-if (True == v_2318993_25) {
+Obj v_2317986_25 = R[1];
+Obj v_2317987_25 = R[2];
+Obj v_2318143_25 = makeNative(co->gc, 2, clofun64, 1, 2, v_2317986_25, v_2317987_25);
+Obj v_2319110_25 = primIsSymbol(v_2317986_25);
+if (True == v_2319110_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318042_25, True);
+coraCall1(co, v_2318143_25, True);
 return;
 } else {
-R[1] = v_2318042_25;
-saveCont(co, clofun62, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317888_25);
+R[1] = v_2318143_25;
+saveCont(co, clofun65, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317986_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318994_25= co->res;
-Obj v_2318042_25 = R[1];
-if (True == v_2318994_25) {
+Obj v_2319111_25= co->res;
+Obj v_2318143_25 = R[1];
+if (True == v_2319111_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318042_25, True);
+coraCall1(co, v_2318143_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318042_25, False);
+coraCall1(co, v_2318143_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318043_25 = R[1];
-if (True == v_2318043_25) {
+Obj v_2318144_25 = R[1];
+if (True == v_2318144_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun61, 1, R);
+saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v_2318859_25= co->res;
-if (True == v_2318859_25) {
+Obj v_2318976_25= co->res;
+if (True == v_2318976_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v_2317892_25 = makeNative(co->gc, 1, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318961_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318961_25) {
-Obj v_2318962_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318963_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318962_25);
-if (True == v_2318963_25) {
-Obj v_2318964_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318965_25 = PRIM_ISCONS(v_2318964_25);
-if (True == v_2318965_25) {
-Obj v_2318966_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318967_25 = PRIM_CAR(v_2318966_25);
-Obj v_a = v_2318967_25;
-Obj v_2318968_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318969_25 = PRIM_CDR(v_2318968_25);
-Obj v_2318970_25 = PRIM_ISCONS(v_2318969_25);
-if (True == v_2318970_25) {
-Obj v_2318971_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318972_25 = PRIM_CDR(v_2318971_25);
-Obj v_2318973_25 = PRIM_CAR(v_2318972_25);
-Obj v_b = v_2318973_25;
-Obj v_2318974_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318975_25 = PRIM_CDR(v_2318974_25);
-Obj v_2318976_25 = PRIM_CDR(v_2318975_25);
-Obj v_2318977_25 = PRIM_ISCONS(v_2318976_25);
-if (True == v_2318977_25) {
-Obj v_2318978_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318979_25 = PRIM_CDR(v_2318978_25);
-Obj v_2318980_25 = PRIM_CDR(v_2318979_25);
-Obj v_2318981_25 = PRIM_CAR(v_2318980_25);
-Obj v_c = v_2318981_25;
-Obj v_2318982_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318983_25 = PRIM_CDR(v_2318982_25);
-Obj v_2318984_25 = PRIM_CDR(v_2318983_25);
-Obj v_2318985_25 = PRIM_CDR(v_2318984_25);
-Obj v_2318986_25 = PRIM_EQ(Nil, v_2318985_25);
-if (True == v_2318986_25) {
+Obj v_2317990_25 = makeNative(co->gc, 1, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319078_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319078_25) {
+Obj v_2319079_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319080_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319079_25);
+if (True == v_2319080_25) {
+Obj v_2319081_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319082_25 = PRIM_ISCONS(v_2319081_25);
+if (True == v_2319082_25) {
+Obj v_2319083_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319084_25 = PRIM_CAR(v_2319083_25);
+Obj v_a = v_2319084_25;
+Obj v_2319085_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319086_25 = PRIM_CDR(v_2319085_25);
+Obj v_2319087_25 = PRIM_ISCONS(v_2319086_25);
+if (True == v_2319087_25) {
+Obj v_2319088_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319089_25 = PRIM_CDR(v_2319088_25);
+Obj v_2319090_25 = PRIM_CAR(v_2319089_25);
+Obj v_b = v_2319090_25;
+Obj v_2319091_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319092_25 = PRIM_CDR(v_2319091_25);
+Obj v_2319093_25 = PRIM_CDR(v_2319092_25);
+Obj v_2319094_25 = PRIM_ISCONS(v_2319093_25);
+if (True == v_2319094_25) {
+Obj v_2319095_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319096_25 = PRIM_CDR(v_2319095_25);
+Obj v_2319097_25 = PRIM_CDR(v_2319096_25);
+Obj v_2319098_25 = PRIM_CAR(v_2319097_25);
+Obj v_c = v_2319098_25;
+Obj v_2319099_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319100_25 = PRIM_CDR(v_2319099_25);
+Obj v_2319101_25 = PRIM_CDR(v_2319100_25);
+Obj v_2319102_25 = PRIM_CDR(v_2319101_25);
+Obj v_2319103_25 = PRIM_EQ(Nil, v_2319102_25);
+if (True == v_2319103_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 3, clofun60, 1, 3, v_b, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 3, clofun63, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317892_25);
+coraCall0(co, v_2317990_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317892_25);
+coraCall0(co, v_2317990_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317892_25);
+coraCall0(co, v_2317990_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317892_25);
+coraCall0(co, v_2317990_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317892_25);
+coraCall0(co, v_2317990_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317892_25);
+coraCall0(co, v_2317990_25);
 return;
 }
 }
@@ -5958,535 +5963,535 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
 R[1] = v_ra;
-saveCont(co, clofun60, 2, R);
+saveCont(co, clofun63, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2318988_25= co->res;
-Obj v_2318987_25 = R[1];
+Obj v_2319105_25= co->res;
+Obj v_2319104_25 = R[1];
 Obj v_ra = R[2];
-Obj v_2318989_25 = makeCons(co->gc, v_2318988_25, Nil);
-Obj v_2318990_25 = makeCons(co->gc, v_2318987_25, v_2318989_25);
-Obj v_2318991_25 = makeCons(co->gc, v_ra, v_2318990_25);
-Obj v_2318992_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318991_25);
-coraReturn(co, v_2318992_25);
+Obj v_2319106_25 = makeCons(co->gc, v_2319105_25, Nil);
+Obj v_2319107_25 = makeCons(co->gc, v_2319104_25, v_2319106_25);
+Obj v_2319108_25 = makeCons(co->gc, v_ra, v_2319107_25);
+Obj v_2319109_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2319108_25);
+coraReturn(co, v_2319109_25);
 return;
 }
 case 2:
 {
-Obj v_2318987_25= co->res;
+Obj v_2319104_25= co->res;
 Obj v_ra = R[1];
-R[1] = v_2318987_25;
+R[1] = v_2319104_25;
 R[2] = v_ra;
-saveCont(co, clofun60, 1, R);
+saveCont(co, clofun63, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317893_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318939_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318939_25) {
-Obj v_2318940_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318941_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318940_25);
-if (True == v_2318941_25) {
-Obj v_2318942_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318943_25 = PRIM_ISCONS(v_2318942_25);
-if (True == v_2318943_25) {
-Obj v_2318944_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318945_25 = PRIM_CAR(v_2318944_25);
-Obj v_a = v_2318945_25;
-Obj v_2318946_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318947_25 = PRIM_CDR(v_2318946_25);
-Obj v_2318948_25 = PRIM_ISCONS(v_2318947_25);
-if (True == v_2318948_25) {
-Obj v_2318949_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318950_25 = PRIM_CDR(v_2318949_25);
-Obj v_2318951_25 = PRIM_CAR(v_2318950_25);
-Obj v_b = v_2318951_25;
-Obj v_2318952_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318953_25 = PRIM_CDR(v_2318952_25);
-Obj v_2318954_25 = PRIM_CDR(v_2318953_25);
-Obj v_2318955_25 = PRIM_EQ(Nil, v_2318954_25);
-if (True == v_2318955_25) {
+Obj v_2317991_25 = makeNative(co->gc, 1, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319056_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319056_25) {
+Obj v_2319057_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319058_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319057_25);
+if (True == v_2319058_25) {
+Obj v_2319059_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319060_25 = PRIM_ISCONS(v_2319059_25);
+if (True == v_2319060_25) {
+Obj v_2319061_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319062_25 = PRIM_CAR(v_2319061_25);
+Obj v_a = v_2319062_25;
+Obj v_2319063_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319064_25 = PRIM_CDR(v_2319063_25);
+Obj v_2319065_25 = PRIM_ISCONS(v_2319064_25);
+if (True == v_2319065_25) {
+Obj v_2319066_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319067_25 = PRIM_CDR(v_2319066_25);
+Obj v_2319068_25 = PRIM_CAR(v_2319067_25);
+Obj v_b = v_2319068_25;
+Obj v_2319069_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319070_25 = PRIM_CDR(v_2319069_25);
+Obj v_2319071_25 = PRIM_CDR(v_2319070_25);
+Obj v_2319072_25 = PRIM_EQ(Nil, v_2319071_25);
+if (True == v_2319072_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 2, clofun58, 1, 2, v_b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 2, clofun61, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317893_25);
+coraCall0(co, v_2317991_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317893_25);
+coraCall0(co, v_2317991_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317893_25);
+coraCall0(co, v_2317991_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317893_25);
+coraCall0(co, v_2317991_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317893_25);
+coraCall0(co, v_2317991_25);
 return;
 }
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v_2318956_25 = primIsSymbol(v_ra);
-if (True == v_2318956_25) {
+Obj v_2319073_25 = primIsSymbol(v_ra);
+if (True == v_2319073_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = v_ra;
-saveCont(co, clofun58, 1, R);
+saveCont(co, clofun61, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v_2318957_25= co->res;
+Obj v_2319074_25= co->res;
 Obj v_ra = R[1];
-Obj v_2318958_25 = makeCons(co->gc, v_2318957_25, Nil);
-Obj v_2318959_25 = makeCons(co->gc, v_ra, v_2318958_25);
-Obj v_2318960_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318959_25);
-coraReturn(co, v_2318960_25);
+Obj v_2319075_25 = makeCons(co->gc, v_2319074_25, Nil);
+Obj v_2319076_25 = makeCons(co->gc, v_ra, v_2319075_25);
+Obj v_2319077_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2319076_25);
+coraReturn(co, v_2319077_25);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317894_25 = makeNative(co->gc, 3, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318908_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318908_25) {
-Obj v_2318909_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318910_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318909_25);
-if (True == v_2318910_25) {
-Obj v_2318911_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318912_25 = PRIM_ISCONS(v_2318911_25);
-if (True == v_2318912_25) {
-Obj v_2318913_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318914_25 = PRIM_CAR(v_2318913_25);
-Obj v_a = v_2318914_25;
-Obj v_2318915_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318916_25 = PRIM_CDR(v_2318915_25);
-Obj v_2318917_25 = PRIM_ISCONS(v_2318916_25);
-if (True == v_2318917_25) {
-Obj v_2318918_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318919_25 = PRIM_CDR(v_2318918_25);
-Obj v_2318920_25 = PRIM_CAR(v_2318919_25);
-Obj v_b = v_2318920_25;
-Obj v_2318921_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318922_25 = PRIM_CDR(v_2318921_25);
-Obj v_2318923_25 = PRIM_CDR(v_2318922_25);
-Obj v_2318924_25 = PRIM_ISCONS(v_2318923_25);
-if (True == v_2318924_25) {
-Obj v_2318925_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318926_25 = PRIM_CDR(v_2318925_25);
-Obj v_2318927_25 = PRIM_CDR(v_2318926_25);
-Obj v_2318928_25 = PRIM_CAR(v_2318927_25);
-Obj v_c = v_2318928_25;
-Obj v_2318929_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318930_25 = PRIM_CDR(v_2318929_25);
-Obj v_2318931_25 = PRIM_CDR(v_2318930_25);
-Obj v_2318932_25 = PRIM_CDR(v_2318931_25);
-Obj v_2318933_25 = PRIM_EQ(Nil, v_2318932_25);
-if (True == v_2318933_25) {
+Obj v_2317992_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319025_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319025_25) {
+Obj v_2319026_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319027_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319026_25);
+if (True == v_2319027_25) {
+Obj v_2319028_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319029_25 = PRIM_ISCONS(v_2319028_25);
+if (True == v_2319029_25) {
+Obj v_2319030_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319031_25 = PRIM_CAR(v_2319030_25);
+Obj v_a = v_2319031_25;
+Obj v_2319032_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319033_25 = PRIM_CDR(v_2319032_25);
+Obj v_2319034_25 = PRIM_ISCONS(v_2319033_25);
+if (True == v_2319034_25) {
+Obj v_2319035_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319036_25 = PRIM_CDR(v_2319035_25);
+Obj v_2319037_25 = PRIM_CAR(v_2319036_25);
+Obj v_b = v_2319037_25;
+Obj v_2319038_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319039_25 = PRIM_CDR(v_2319038_25);
+Obj v_2319040_25 = PRIM_CDR(v_2319039_25);
+Obj v_2319041_25 = PRIM_ISCONS(v_2319040_25);
+if (True == v_2319041_25) {
+Obj v_2319042_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319043_25 = PRIM_CDR(v_2319042_25);
+Obj v_2319044_25 = PRIM_CDR(v_2319043_25);
+Obj v_2319045_25 = PRIM_CAR(v_2319044_25);
+Obj v_c = v_2319045_25;
+Obj v_2319046_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319047_25 = PRIM_CDR(v_2319046_25);
+Obj v_2319048_25 = PRIM_CDR(v_2319047_25);
+Obj v_2319049_25 = PRIM_CDR(v_2319048_25);
+Obj v_2319050_25 = PRIM_EQ(Nil, v_2319049_25);
+if (True == v_2319050_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_b, makeNative(co->gc, 2, clofun56, 1, 3, v_a, v_c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_b, makeNative(co->gc, 2, clofun59, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317894_25);
+coraCall0(co, v_2317992_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317894_25);
+coraCall0(co, v_2317992_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317894_25);
+coraCall0(co, v_2317992_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317894_25);
+coraCall0(co, v_2317992_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317894_25);
+coraCall0(co, v_2317992_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317894_25);
+coraCall0(co, v_2317992_25);
 return;
 }
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rb = R[1];
 R[1] = v_rb;
-saveCont(co, clofun56, 1, R);
+saveCont(co, clofun59, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2318934_25= co->res;
+Obj v_2319051_25= co->res;
 Obj v_rb = R[1];
-Obj v_2318935_25 = makeCons(co->gc, v_2318934_25, Nil);
-Obj v_2318936_25 = makeCons(co->gc, v_rb, v_2318935_25);
-Obj v_2318937_25 = makeCons(co->gc, closureRef(R[0], 0), v_2318936_25);
-Obj v_2318938_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318937_25);
-coraReturn(co, v_2318938_25);
+Obj v_2319052_25 = makeCons(co->gc, v_2319051_25, Nil);
+Obj v_2319053_25 = makeCons(co->gc, v_rb, v_2319052_25);
+Obj v_2319054_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319053_25);
+Obj v_2319055_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319054_25);
+coraReturn(co, v_2319055_25);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317895_25 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318864_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318864_25) {
-Obj v_2318865_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318866_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318865_25);
-if (True == v_2318866_25) {
-Obj v_2318867_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318868_25 = PRIM_ISCONS(v_2318867_25);
-if (True == v_2318868_25) {
-Obj v_2318869_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318870_25 = PRIM_CAR(v_2318869_25);
-Obj v_2318871_25 = PRIM_ISCONS(v_2318870_25);
-if (True == v_2318871_25) {
-Obj v_2318872_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318873_25 = PRIM_CAR(v_2318872_25);
-Obj v_2318874_25 = PRIM_CAR(v_2318873_25);
-Obj v_2318875_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318874_25);
-if (True == v_2318875_25) {
-Obj v_2318876_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318877_25 = PRIM_CAR(v_2318876_25);
-Obj v_2318878_25 = PRIM_CDR(v_2318877_25);
-Obj v_2318879_25 = PRIM_ISCONS(v_2318878_25);
-if (True == v_2318879_25) {
-Obj v_2318880_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318881_25 = PRIM_CAR(v_2318880_25);
-Obj v_2318882_25 = PRIM_CDR(v_2318881_25);
-Obj v_2318883_25 = PRIM_CAR(v_2318882_25);
-Obj v_args = v_2318883_25;
-Obj v_2318884_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318885_25 = PRIM_CAR(v_2318884_25);
-Obj v_2318886_25 = PRIM_CDR(v_2318885_25);
-Obj v_2318887_25 = PRIM_CDR(v_2318886_25);
-Obj v_2318888_25 = PRIM_ISCONS(v_2318887_25);
-if (True == v_2318888_25) {
-Obj v_2318889_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318890_25 = PRIM_CAR(v_2318889_25);
-Obj v_2318891_25 = PRIM_CDR(v_2318890_25);
-Obj v_2318892_25 = PRIM_CDR(v_2318891_25);
-Obj v_2318893_25 = PRIM_CAR(v_2318892_25);
-Obj v_body = v_2318893_25;
-Obj v_2318894_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318895_25 = PRIM_CAR(v_2318894_25);
-Obj v_2318896_25 = PRIM_CDR(v_2318895_25);
-Obj v_2318897_25 = PRIM_CDR(v_2318896_25);
-Obj v_2318898_25 = PRIM_CDR(v_2318897_25);
-Obj v_2318899_25 = PRIM_EQ(Nil, v_2318898_25);
-if (True == v_2318899_25) {
-Obj v_2318900_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318901_25 = PRIM_CDR(v_2318900_25);
-Obj v_frees = v_2318901_25;
+Obj v_2317993_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318981_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318981_25) {
+Obj v_2318982_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318983_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318982_25);
+if (True == v_2318983_25) {
+Obj v_2318984_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318985_25 = PRIM_ISCONS(v_2318984_25);
+if (True == v_2318985_25) {
+Obj v_2318986_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318987_25 = PRIM_CAR(v_2318986_25);
+Obj v_2318988_25 = PRIM_ISCONS(v_2318987_25);
+if (True == v_2318988_25) {
+Obj v_2318989_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318990_25 = PRIM_CAR(v_2318989_25);
+Obj v_2318991_25 = PRIM_CAR(v_2318990_25);
+Obj v_2318992_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318991_25);
+if (True == v_2318992_25) {
+Obj v_2318993_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318994_25 = PRIM_CAR(v_2318993_25);
+Obj v_2318995_25 = PRIM_CDR(v_2318994_25);
+Obj v_2318996_25 = PRIM_ISCONS(v_2318995_25);
+if (True == v_2318996_25) {
+Obj v_2318997_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318998_25 = PRIM_CAR(v_2318997_25);
+Obj v_2318999_25 = PRIM_CDR(v_2318998_25);
+Obj v_2319000_25 = PRIM_CAR(v_2318999_25);
+Obj v_args = v_2319000_25;
+Obj v_2319001_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319002_25 = PRIM_CAR(v_2319001_25);
+Obj v_2319003_25 = PRIM_CDR(v_2319002_25);
+Obj v_2319004_25 = PRIM_CDR(v_2319003_25);
+Obj v_2319005_25 = PRIM_ISCONS(v_2319004_25);
+if (True == v_2319005_25) {
+Obj v_2319006_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319007_25 = PRIM_CAR(v_2319006_25);
+Obj v_2319008_25 = PRIM_CDR(v_2319007_25);
+Obj v_2319009_25 = PRIM_CDR(v_2319008_25);
+Obj v_2319010_25 = PRIM_CAR(v_2319009_25);
+Obj v_body = v_2319010_25;
+Obj v_2319011_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319012_25 = PRIM_CAR(v_2319011_25);
+Obj v_2319013_25 = PRIM_CDR(v_2319012_25);
+Obj v_2319014_25 = PRIM_CDR(v_2319013_25);
+Obj v_2319015_25 = PRIM_CDR(v_2319014_25);
+Obj v_2319016_25 = PRIM_EQ(Nil, v_2319015_25);
+if (True == v_2319016_25) {
+Obj v_2319017_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319018_25 = PRIM_CDR(v_2319017_25);
+Obj v_frees = v_2319018_25;
 R[1] = v_args;
 R[2] = v_frees;
-saveCont(co, clofun55, 1, R);
+saveCont(co, clofun58, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_body, globalRef(co, getBinding(co, packageID, 69)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317895_25);
+coraCall0(co, v_2317993_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318902_25= co->res;
+Obj v_2319019_25= co->res;
 Obj v_args = R[1];
 Obj v_frees = R[2];
-Obj v_2318903_25 = makeCons(co->gc, v_2318902_25, Nil);
-Obj v_2318904_25 = makeCons(co->gc, v_args, v_2318903_25);
-Obj v_2318905_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318904_25);
-Obj v_2318906_25 = makeCons(co->gc, v_2318905_25, v_frees);
-Obj v_2318907_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318906_25);
+Obj v_2319020_25 = makeCons(co->gc, v_2319019_25, Nil);
+Obj v_2319021_25 = makeCons(co->gc, v_args, v_2319020_25);
+Obj v_2319022_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319021_25);
+Obj v_2319023_25 = makeCons(co->gc, v_2319022_25, v_frees);
+Obj v_2319024_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319023_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v_2318907_25);
+coraCall1(co, closureRef(R[0], 1), v_2319024_25);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318860_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318860_25) {
-Obj v_2318861_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318861_25;
-Obj v_2318862_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318862_25;
-Obj v_2318863_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318977_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318977_25) {
+Obj v_2318978_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318978_25;
+Obj v_2318979_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318979_25;
+Obj v_2318980_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2318863_25, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2318980_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318856_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2318857_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2318856_25);
-coraReturn(co, v_2318857_25);
+Obj v_2318973_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2318974_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318973_25);
+coraReturn(co, v_2318974_25);
 return;
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317881_25 = R[1];
-Obj v_2317882_25 = R[2];
-R[1] = v_2317882_25;
-R[2] = v_2317881_25;
-saveCont(co, clofun52, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317882_25);
+Obj v_2317979_25 = R[1];
+Obj v_2317980_25 = R[2];
+R[1] = v_2317980_25;
+R[2] = v_2317979_25;
+saveCont(co, clofun55, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317980_25);
 return;
 }
 case 1:
 {
-Obj v_2318785_25= co->res;
-Obj v_2317882_25 = R[1];
-Obj v_pos = v_2318785_25;
-Obj v_2318786_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
-if (True == v_2318786_25) {
-coraReturn(co, v_2317882_25);
+Obj v_2318902_25= co->res;
+Obj v_2317980_25 = R[1];
+Obj v_pos = v_2318902_25;
+Obj v_2318903_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2318903_25) {
+coraReturn(co, v_2317980_25);
 return;
 } else {
-Obj v_2318787_25 = makeCons(co->gc, v_pos, Nil);
-Obj v_2318788_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318787_25);
-coraReturn(co, v_2318788_25);
+Obj v_2318904_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2318905_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318904_25);
+coraReturn(co, v_2318905_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2318852_25= co->res;
-Obj v_2318850_25 = R[1];
-Obj v_2318853_25 = makeCons(co->gc, v_2318850_25, v_2318852_25);
-Obj v_2318854_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318853_25);
-coraReturn(co, v_2318854_25);
+Obj v_2318969_25= co->res;
+Obj v_2318967_25 = R[1];
+Obj v_2318970_25 = makeCons(co->gc, v_2318967_25, v_2318969_25);
+Obj v_2318971_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318970_25);
+coraReturn(co, v_2318971_25);
 return;
 }
 case 3:
 {
-Obj v_2318851_25= co->res;
+Obj v_2318968_25= co->res;
 Obj v_fvs1 = R[1];
-Obj v_2318850_25 = R[2];
-R[1] = v_2318850_25;
-saveCont(co, clofun52, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318851_25, v_fvs1);
+Obj v_2318967_25 = R[2];
+R[1] = v_2318967_25;
+saveCont(co, clofun55, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318968_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2318847_25= co->res;
+Obj v_2318964_25= co->res;
 Obj v_args = R[1];
-Obj v_2317881_25 = R[2];
+Obj v_2317979_25 = R[2];
 Obj v_fvs1 = R[3];
-Obj v_2318848_25 = makeCons(co->gc, v_2318847_25, Nil);
-Obj v_2318849_25 = makeCons(co->gc, v_args, v_2318848_25);
-Obj v_2318850_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318849_25);
+Obj v_2318965_25 = makeCons(co->gc, v_2318964_25, Nil);
+Obj v_2318966_25 = makeCons(co->gc, v_args, v_2318965_25);
+Obj v_2318967_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318966_25);
 R[1] = v_fvs1;
-R[2] = v_2318850_25;
-saveCont(co, clofun52, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2317881_25);
+R[2] = v_2318967_25;
+saveCont(co, clofun55, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2317979_25);
 return;
 }
 case 5:
 {
-Obj v_2318846_25= co->res;
+Obj v_2318963_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2317881_25 = R[3];
-Obj v_fvs1 = v_2318846_25;
+Obj v_2317979_25 = R[3];
+Obj v_fvs1 = v_2318963_25;
 R[1] = v_args;
-R[2] = v_2317881_25;
+R[2] = v_2317979_25;
 R[3] = v_fvs1;
-saveCont(co, clofun52, 4, R);
+saveCont(co, clofun55, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_fvs1, v_body);
 return;
 }
 case 6:
 {
-Obj v_2318783_25= co->res;
-Obj v_2317882_25 = R[1];
-Obj v_2317881_25 = R[2];
-if (True == v_2318783_25) {
-coraReturn(co, v_2317882_25);
+Obj v_2318900_25= co->res;
+Obj v_2317980_25 = R[1];
+Obj v_2317979_25 = R[2];
+if (True == v_2318900_25) {
+coraReturn(co, v_2317980_25);
 return;
 } else {
-Obj v_2318784_25 = primIsSymbol(v_2317882_25);
-if (True == v_2318784_25) {
-R[1] = v_2317882_25;
-saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317882_25, v_2317881_25);
+Obj v_2318901_25 = primIsSymbol(v_2317980_25);
+if (True == v_2318901_25) {
+R[1] = v_2317980_25;
+saveCont(co, clofun55, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2317980_25, v_2317979_25);
 return;
 } else {
-Obj v_2317885_25 = makeNative(co->gc, 3, clofun51, 0, 2, v_2317882_25, v_2317881_25);
-Obj v_2318826_25 = PRIM_ISCONS(v_2317882_25);
-if (True == v_2318826_25) {
-Obj v_2318827_25 = PRIM_CAR(v_2317882_25);
-Obj v_2318828_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318827_25);
-if (True == v_2318828_25) {
-Obj v_2318829_25 = PRIM_CDR(v_2317882_25);
-Obj v_2318830_25 = PRIM_ISCONS(v_2318829_25);
-if (True == v_2318830_25) {
-Obj v_2318831_25 = PRIM_CDR(v_2317882_25);
-Obj v_2318832_25 = PRIM_CAR(v_2318831_25);
-Obj v_args = v_2318832_25;
-Obj v_2318833_25 = PRIM_CDR(v_2317882_25);
-Obj v_2318834_25 = PRIM_CDR(v_2318833_25);
-Obj v_2318835_25 = PRIM_ISCONS(v_2318834_25);
-if (True == v_2318835_25) {
-Obj v_2318836_25 = PRIM_CDR(v_2317882_25);
-Obj v_2318837_25 = PRIM_CDR(v_2318836_25);
-Obj v_2318838_25 = PRIM_CAR(v_2318837_25);
-Obj v_body = v_2318838_25;
-Obj v_2318839_25 = PRIM_CDR(v_2317882_25);
-Obj v_2318840_25 = PRIM_CDR(v_2318839_25);
-Obj v_2318841_25 = PRIM_CDR(v_2318840_25);
-Obj v_2318842_25 = PRIM_EQ(Nil, v_2318841_25);
-if (True == v_2318842_25) {
-Obj v_2318843_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2318844_25 = makeCons(co->gc, v_args, v_2318843_25);
-Obj v_2318845_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318844_25);
+Obj v_2317983_25 = makeNative(co->gc, 3, clofun54, 0, 2, v_2317980_25, v_2317979_25);
+Obj v_2318943_25 = PRIM_ISCONS(v_2317980_25);
+if (True == v_2318943_25) {
+Obj v_2318944_25 = PRIM_CAR(v_2317980_25);
+Obj v_2318945_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318944_25);
+if (True == v_2318945_25) {
+Obj v_2318946_25 = PRIM_CDR(v_2317980_25);
+Obj v_2318947_25 = PRIM_ISCONS(v_2318946_25);
+if (True == v_2318947_25) {
+Obj v_2318948_25 = PRIM_CDR(v_2317980_25);
+Obj v_2318949_25 = PRIM_CAR(v_2318948_25);
+Obj v_args = v_2318949_25;
+Obj v_2318950_25 = PRIM_CDR(v_2317980_25);
+Obj v_2318951_25 = PRIM_CDR(v_2318950_25);
+Obj v_2318952_25 = PRIM_ISCONS(v_2318951_25);
+if (True == v_2318952_25) {
+Obj v_2318953_25 = PRIM_CDR(v_2317980_25);
+Obj v_2318954_25 = PRIM_CDR(v_2318953_25);
+Obj v_2318955_25 = PRIM_CAR(v_2318954_25);
+Obj v_body = v_2318955_25;
+Obj v_2318956_25 = PRIM_CDR(v_2317980_25);
+Obj v_2318957_25 = PRIM_CDR(v_2318956_25);
+Obj v_2318958_25 = PRIM_CDR(v_2318957_25);
+Obj v_2318959_25 = PRIM_EQ(Nil, v_2318958_25);
+if (True == v_2318959_25) {
+Obj v_2318960_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2318961_25 = makeCons(co->gc, v_args, v_2318960_25);
+Obj v_2318962_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318961_25);
 R[1] = v_body;
 R[2] = v_args;
-R[3] = v_2317881_25;
-saveCont(co, clofun52, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318845_25);
+R[3] = v_2317979_25;
+saveCont(co, clofun55, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318962_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317885_25);
+coraCall0(co, v_2317983_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317885_25);
+coraCall0(co, v_2317983_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317885_25);
+coraCall0(co, v_2317983_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317885_25);
+coraCall0(co, v_2317983_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317885_25);
+coraCall0(co, v_2317983_25);
 return;
 }
 }
@@ -6495,226 +6500,226 @@ return;
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317886_25 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318794_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318794_25) {
-Obj v_2318795_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318796_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318795_25);
-if (True == v_2318796_25) {
-Obj v_2318797_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318798_25 = PRIM_ISCONS(v_2318797_25);
-if (True == v_2318798_25) {
-Obj v_2318799_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318800_25 = PRIM_CAR(v_2318799_25);
-Obj v_a = v_2318800_25;
-Obj v_2318801_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318802_25 = PRIM_CDR(v_2318801_25);
-Obj v_2318803_25 = PRIM_ISCONS(v_2318802_25);
-if (True == v_2318803_25) {
-Obj v_2318804_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318805_25 = PRIM_CDR(v_2318804_25);
-Obj v_2318806_25 = PRIM_CAR(v_2318805_25);
-Obj v_b = v_2318806_25;
-Obj v_2318807_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318808_25 = PRIM_CDR(v_2318807_25);
-Obj v_2318809_25 = PRIM_CDR(v_2318808_25);
-Obj v_2318810_25 = PRIM_ISCONS(v_2318809_25);
-if (True == v_2318810_25) {
-Obj v_2318811_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318812_25 = PRIM_CDR(v_2318811_25);
-Obj v_2318813_25 = PRIM_CDR(v_2318812_25);
-Obj v_2318814_25 = PRIM_CAR(v_2318813_25);
-Obj v_c = v_2318814_25;
-Obj v_2318815_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318816_25 = PRIM_CDR(v_2318815_25);
-Obj v_2318817_25 = PRIM_CDR(v_2318816_25);
-Obj v_2318818_25 = PRIM_CDR(v_2318817_25);
-Obj v_2318819_25 = PRIM_EQ(Nil, v_2318818_25);
-if (True == v_2318819_25) {
+Obj v_2317984_25 = makeNative(co->gc, 3, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2318911_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318911_25) {
+Obj v_2318912_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318913_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318912_25);
+if (True == v_2318913_25) {
+Obj v_2318914_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318915_25 = PRIM_ISCONS(v_2318914_25);
+if (True == v_2318915_25) {
+Obj v_2318916_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318917_25 = PRIM_CAR(v_2318916_25);
+Obj v_a = v_2318917_25;
+Obj v_2318918_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318919_25 = PRIM_CDR(v_2318918_25);
+Obj v_2318920_25 = PRIM_ISCONS(v_2318919_25);
+if (True == v_2318920_25) {
+Obj v_2318921_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318922_25 = PRIM_CDR(v_2318921_25);
+Obj v_2318923_25 = PRIM_CAR(v_2318922_25);
+Obj v_b = v_2318923_25;
+Obj v_2318924_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318925_25 = PRIM_CDR(v_2318924_25);
+Obj v_2318926_25 = PRIM_CDR(v_2318925_25);
+Obj v_2318927_25 = PRIM_ISCONS(v_2318926_25);
+if (True == v_2318927_25) {
+Obj v_2318928_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318929_25 = PRIM_CDR(v_2318928_25);
+Obj v_2318930_25 = PRIM_CDR(v_2318929_25);
+Obj v_2318931_25 = PRIM_CAR(v_2318930_25);
+Obj v_c = v_2318931_25;
+Obj v_2318932_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318933_25 = PRIM_CDR(v_2318932_25);
+Obj v_2318934_25 = PRIM_CDR(v_2318933_25);
+Obj v_2318935_25 = PRIM_CDR(v_2318934_25);
+Obj v_2318936_25 = PRIM_EQ(Nil, v_2318935_25);
+if (True == v_2318936_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun51, 2, R);
+saveCont(co, clofun54, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317886_25);
+coraCall0(co, v_2317984_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317886_25);
+coraCall0(co, v_2317984_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317886_25);
+coraCall0(co, v_2317984_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317886_25);
+coraCall0(co, v_2317984_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317886_25);
+coraCall0(co, v_2317984_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317886_25);
+coraCall0(co, v_2317984_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318821_25= co->res;
-Obj v_2318820_25 = R[1];
+Obj v_2318938_25= co->res;
+Obj v_2318937_25 = R[1];
 Obj v_a = R[2];
-Obj v_2318822_25 = makeCons(co->gc, v_2318821_25, Nil);
-Obj v_2318823_25 = makeCons(co->gc, v_2318820_25, v_2318822_25);
-Obj v_2318824_25 = makeCons(co->gc, v_a, v_2318823_25);
-Obj v_2318825_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318824_25);
-coraReturn(co, v_2318825_25);
+Obj v_2318939_25 = makeCons(co->gc, v_2318938_25, Nil);
+Obj v_2318940_25 = makeCons(co->gc, v_2318937_25, v_2318939_25);
+Obj v_2318941_25 = makeCons(co->gc, v_a, v_2318940_25);
+Obj v_2318942_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318941_25);
+coraReturn(co, v_2318942_25);
 return;
 }
 case 2:
 {
-Obj v_2318820_25= co->res;
+Obj v_2318937_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-R[1] = v_2318820_25;
+R[1] = v_2318937_25;
 R[2] = v_a;
-saveCont(co, clofun51, 1, R);
+saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v_c);
 return;
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318789_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318789_25) {
-Obj v_2318790_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318790_25;
-Obj v_2318791_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318791_25;
+Obj v_2318906_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318906_25) {
+Obj v_2318907_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318907_25;
+Obj v_2318908_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318908_25;
 R[1] = v_f;
 R[2] = v_args;
-saveCont(co, clofun50, 1, R);
+saveCont(co, clofun53, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2318792_25= co->res;
+Obj v_2318909_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318793_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318910_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318792_25, v_2318793_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318909_25, v_2318910_25);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317868_25 = R[1];
-R[1] = v_2317868_25;
-saveCont(co, clofun49, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317868_25);
+Obj v_2317966_25 = R[1];
+R[1] = v_2317966_25;
+saveCont(co, clofun52, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317966_25);
 return;
 }
 case 1:
 {
-Obj v_2318781_25= co->res;
+Obj v_2318898_25= co->res;
 Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318781_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318898_25, v_args);
 return;
 }
 case 2:
 {
-Obj v_2318608_25= co->res;
-Obj v_2317868_25 = R[1];
-if (True == v_2318608_25) {
+Obj v_2318725_25= co->res;
+Obj v_2317966_25 = R[1];
+if (True == v_2318725_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318609_25 = primIsSymbol(v_2317868_25);
-if (True == v_2318609_25) {
-Obj v_2318610_25 = makeCons(co->gc, v_2317868_25, Nil);
-coraReturn(co, v_2318610_25);
-return;
-} else {
-Obj v_2317871_25 = makeNative(co->gc, 1, clofun48, 0, 1, v_2317868_25);
-Obj v_2318764_25 = PRIM_ISCONS(v_2317868_25);
-if (True == v_2318764_25) {
-Obj v_2318765_25 = PRIM_CAR(v_2317868_25);
-Obj v_2318766_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318765_25);
-if (True == v_2318766_25) {
-Obj v_2318767_25 = PRIM_CDR(v_2317868_25);
-Obj v_2318768_25 = PRIM_ISCONS(v_2318767_25);
-if (True == v_2318768_25) {
-Obj v_2318769_25 = PRIM_CDR(v_2317868_25);
-Obj v_2318770_25 = PRIM_CAR(v_2318769_25);
-Obj v_args = v_2318770_25;
-Obj v_2318771_25 = PRIM_CDR(v_2317868_25);
-Obj v_2318772_25 = PRIM_CDR(v_2318771_25);
-Obj v_2318773_25 = PRIM_ISCONS(v_2318772_25);
-if (True == v_2318773_25) {
-Obj v_2318774_25 = PRIM_CDR(v_2317868_25);
-Obj v_2318775_25 = PRIM_CDR(v_2318774_25);
-Obj v_2318776_25 = PRIM_CAR(v_2318775_25);
-Obj v_body = v_2318776_25;
-Obj v_2318777_25 = PRIM_CDR(v_2317868_25);
-Obj v_2318778_25 = PRIM_CDR(v_2318777_25);
-Obj v_2318779_25 = PRIM_CDR(v_2318778_25);
-Obj v_2318780_25 = PRIM_EQ(Nil, v_2318779_25);
-if (True == v_2318780_25) {
+Obj v_2318726_25 = primIsSymbol(v_2317966_25);
+if (True == v_2318726_25) {
+Obj v_2318727_25 = makeCons(co->gc, v_2317966_25, Nil);
+coraReturn(co, v_2318727_25);
+return;
+} else {
+Obj v_2317969_25 = makeNative(co->gc, 1, clofun51, 0, 1, v_2317966_25);
+Obj v_2318881_25 = PRIM_ISCONS(v_2317966_25);
+if (True == v_2318881_25) {
+Obj v_2318882_25 = PRIM_CAR(v_2317966_25);
+Obj v_2318883_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318882_25);
+if (True == v_2318883_25) {
+Obj v_2318884_25 = PRIM_CDR(v_2317966_25);
+Obj v_2318885_25 = PRIM_ISCONS(v_2318884_25);
+if (True == v_2318885_25) {
+Obj v_2318886_25 = PRIM_CDR(v_2317966_25);
+Obj v_2318887_25 = PRIM_CAR(v_2318886_25);
+Obj v_args = v_2318887_25;
+Obj v_2318888_25 = PRIM_CDR(v_2317966_25);
+Obj v_2318889_25 = PRIM_CDR(v_2318888_25);
+Obj v_2318890_25 = PRIM_ISCONS(v_2318889_25);
+if (True == v_2318890_25) {
+Obj v_2318891_25 = PRIM_CDR(v_2317966_25);
+Obj v_2318892_25 = PRIM_CDR(v_2318891_25);
+Obj v_2318893_25 = PRIM_CAR(v_2318892_25);
+Obj v_body = v_2318893_25;
+Obj v_2318894_25 = PRIM_CDR(v_2317966_25);
+Obj v_2318895_25 = PRIM_CDR(v_2318894_25);
+Obj v_2318896_25 = PRIM_CDR(v_2318895_25);
+Obj v_2318897_25 = PRIM_EQ(Nil, v_2318896_25);
+if (True == v_2318897_25) {
 R[1] = v_args;
-saveCont(co, clofun49, 1, R);
+saveCont(co, clofun52, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317871_25);
+coraCall0(co, v_2317969_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317871_25);
+coraCall0(co, v_2317969_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317871_25);
+coraCall0(co, v_2317969_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317871_25);
+coraCall0(co, v_2317969_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317871_25);
+coraCall0(co, v_2317969_25);
 return;
 }
 }
@@ -6723,859 +6728,859 @@ return;
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317872_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
-Obj v_2318734_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318734_25) {
-Obj v_2318735_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318736_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318735_25);
-if (True == v_2318736_25) {
-Obj v_2318737_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318738_25 = PRIM_ISCONS(v_2318737_25);
-if (True == v_2318738_25) {
-Obj v_2318739_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318740_25 = PRIM_CAR(v_2318739_25);
-Obj v_x = v_2318740_25;
-Obj v_2318741_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318742_25 = PRIM_CDR(v_2318741_25);
-Obj v_2318743_25 = PRIM_ISCONS(v_2318742_25);
-if (True == v_2318743_25) {
-Obj v_2318744_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318745_25 = PRIM_CDR(v_2318744_25);
-Obj v_2318746_25 = PRIM_CAR(v_2318745_25);
-Obj v_y = v_2318746_25;
-Obj v_2318747_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318748_25 = PRIM_CDR(v_2318747_25);
-Obj v_2318749_25 = PRIM_CDR(v_2318748_25);
-Obj v_2318750_25 = PRIM_ISCONS(v_2318749_25);
-if (True == v_2318750_25) {
-Obj v_2318751_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318752_25 = PRIM_CDR(v_2318751_25);
-Obj v_2318753_25 = PRIM_CDR(v_2318752_25);
-Obj v_2318754_25 = PRIM_CAR(v_2318753_25);
-Obj v_z = v_2318754_25;
-Obj v_2318755_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318756_25 = PRIM_CDR(v_2318755_25);
-Obj v_2318757_25 = PRIM_CDR(v_2318756_25);
-Obj v_2318758_25 = PRIM_CDR(v_2318757_25);
-Obj v_2318759_25 = PRIM_EQ(Nil, v_2318758_25);
-if (True == v_2318759_25) {
-Obj v_2318760_25 = makeCons(co->gc, v_z, Nil);
-Obj v_2318761_25 = makeCons(co->gc, v_y, v_2318760_25);
-Obj v_2318762_25 = makeCons(co->gc, v_x, v_2318761_25);
-saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318762_25);
+Obj v_2317970_25 = makeNative(co->gc, 1, clofun50, 0, 1, closureRef(R[0], 0));
+Obj v_2318851_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318851_25) {
+Obj v_2318852_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318853_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318852_25);
+if (True == v_2318853_25) {
+Obj v_2318854_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318855_25 = PRIM_ISCONS(v_2318854_25);
+if (True == v_2318855_25) {
+Obj v_2318856_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318857_25 = PRIM_CAR(v_2318856_25);
+Obj v_x = v_2318857_25;
+Obj v_2318858_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318859_25 = PRIM_CDR(v_2318858_25);
+Obj v_2318860_25 = PRIM_ISCONS(v_2318859_25);
+if (True == v_2318860_25) {
+Obj v_2318861_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318862_25 = PRIM_CDR(v_2318861_25);
+Obj v_2318863_25 = PRIM_CAR(v_2318862_25);
+Obj v_y = v_2318863_25;
+Obj v_2318864_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318865_25 = PRIM_CDR(v_2318864_25);
+Obj v_2318866_25 = PRIM_CDR(v_2318865_25);
+Obj v_2318867_25 = PRIM_ISCONS(v_2318866_25);
+if (True == v_2318867_25) {
+Obj v_2318868_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318869_25 = PRIM_CDR(v_2318868_25);
+Obj v_2318870_25 = PRIM_CDR(v_2318869_25);
+Obj v_2318871_25 = PRIM_CAR(v_2318870_25);
+Obj v_z = v_2318871_25;
+Obj v_2318872_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318873_25 = PRIM_CDR(v_2318872_25);
+Obj v_2318874_25 = PRIM_CDR(v_2318873_25);
+Obj v_2318875_25 = PRIM_CDR(v_2318874_25);
+Obj v_2318876_25 = PRIM_EQ(Nil, v_2318875_25);
+if (True == v_2318876_25) {
+Obj v_2318877_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2318878_25 = makeCons(co->gc, v_y, v_2318877_25);
+Obj v_2318879_25 = makeCons(co->gc, v_x, v_2318878_25);
+saveCont(co, clofun51, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318879_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317872_25);
+coraCall0(co, v_2317970_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317872_25);
+coraCall0(co, v_2317970_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317872_25);
+coraCall0(co, v_2317970_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317872_25);
+coraCall0(co, v_2317970_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317872_25);
+coraCall0(co, v_2317970_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317872_25);
+coraCall0(co, v_2317970_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318763_25= co->res;
+Obj v_2318880_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318763_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318880_25);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317873_25 = makeNative(co->gc, 3, clofun46, 0, 1, closureRef(R[0], 0));
-Obj v_2318714_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318714_25) {
-Obj v_2318715_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318716_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318715_25);
-if (True == v_2318716_25) {
-Obj v_2318717_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318718_25 = PRIM_ISCONS(v_2318717_25);
-if (True == v_2318718_25) {
-Obj v_2318719_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318720_25 = PRIM_CAR(v_2318719_25);
-Obj v_x = v_2318720_25;
-Obj v_2318721_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318722_25 = PRIM_CDR(v_2318721_25);
-Obj v_2318723_25 = PRIM_ISCONS(v_2318722_25);
-if (True == v_2318723_25) {
-Obj v_2318724_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318725_25 = PRIM_CDR(v_2318724_25);
-Obj v_2318726_25 = PRIM_CAR(v_2318725_25);
-Obj v_y = v_2318726_25;
-Obj v_2318727_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318728_25 = PRIM_CDR(v_2318727_25);
-Obj v_2318729_25 = PRIM_CDR(v_2318728_25);
-Obj v_2318730_25 = PRIM_EQ(Nil, v_2318729_25);
-if (True == v_2318730_25) {
-Obj v_2318731_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2318732_25 = makeCons(co->gc, v_x, v_2318731_25);
-saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318732_25);
+Obj v_2317971_25 = makeNative(co->gc, 3, clofun49, 0, 1, closureRef(R[0], 0));
+Obj v_2318831_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318831_25) {
+Obj v_2318832_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318833_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318832_25);
+if (True == v_2318833_25) {
+Obj v_2318834_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318835_25 = PRIM_ISCONS(v_2318834_25);
+if (True == v_2318835_25) {
+Obj v_2318836_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318837_25 = PRIM_CAR(v_2318836_25);
+Obj v_x = v_2318837_25;
+Obj v_2318838_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318839_25 = PRIM_CDR(v_2318838_25);
+Obj v_2318840_25 = PRIM_ISCONS(v_2318839_25);
+if (True == v_2318840_25) {
+Obj v_2318841_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318842_25 = PRIM_CDR(v_2318841_25);
+Obj v_2318843_25 = PRIM_CAR(v_2318842_25);
+Obj v_y = v_2318843_25;
+Obj v_2318844_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318845_25 = PRIM_CDR(v_2318844_25);
+Obj v_2318846_25 = PRIM_CDR(v_2318845_25);
+Obj v_2318847_25 = PRIM_EQ(Nil, v_2318846_25);
+if (True == v_2318847_25) {
+Obj v_2318848_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2318849_25 = makeCons(co->gc, v_x, v_2318848_25);
+saveCont(co, clofun50, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318849_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317873_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317873_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317873_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317873_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317873_25);
+coraCall0(co, v_2317971_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318733_25= co->res;
+Obj v_2318850_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318733_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318850_25);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317874_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
-Obj v_2318684_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318684_25) {
-Obj v_2318685_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318686_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318685_25);
-if (True == v_2318686_25) {
-Obj v_2318687_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318688_25 = PRIM_ISCONS(v_2318687_25);
-if (True == v_2318688_25) {
-Obj v_2318689_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318690_25 = PRIM_CAR(v_2318689_25);
-Obj v_a = v_2318690_25;
-Obj v_2318691_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318692_25 = PRIM_CDR(v_2318691_25);
-Obj v_2318693_25 = PRIM_ISCONS(v_2318692_25);
-if (True == v_2318693_25) {
-Obj v_2318694_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318695_25 = PRIM_CDR(v_2318694_25);
-Obj v_2318696_25 = PRIM_CAR(v_2318695_25);
-Obj v_b = v_2318696_25;
-Obj v_2318697_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318698_25 = PRIM_CDR(v_2318697_25);
-Obj v_2318699_25 = PRIM_CDR(v_2318698_25);
-Obj v_2318700_25 = PRIM_ISCONS(v_2318699_25);
-if (True == v_2318700_25) {
-Obj v_2318701_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318702_25 = PRIM_CDR(v_2318701_25);
-Obj v_2318703_25 = PRIM_CDR(v_2318702_25);
-Obj v_2318704_25 = PRIM_CAR(v_2318703_25);
-Obj v_c = v_2318704_25;
-Obj v_2318705_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318706_25 = PRIM_CDR(v_2318705_25);
-Obj v_2318707_25 = PRIM_CDR(v_2318706_25);
-Obj v_2318708_25 = PRIM_CDR(v_2318707_25);
-Obj v_2318709_25 = PRIM_EQ(Nil, v_2318708_25);
-if (True == v_2318709_25) {
+Obj v_2317972_25 = makeNative(co->gc, 1, clofun48, 0, 1, closureRef(R[0], 0));
+Obj v_2318801_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318801_25) {
+Obj v_2318802_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318803_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318802_25);
+if (True == v_2318803_25) {
+Obj v_2318804_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318805_25 = PRIM_ISCONS(v_2318804_25);
+if (True == v_2318805_25) {
+Obj v_2318806_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318807_25 = PRIM_CAR(v_2318806_25);
+Obj v_a = v_2318807_25;
+Obj v_2318808_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318809_25 = PRIM_CDR(v_2318808_25);
+Obj v_2318810_25 = PRIM_ISCONS(v_2318809_25);
+if (True == v_2318810_25) {
+Obj v_2318811_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318812_25 = PRIM_CDR(v_2318811_25);
+Obj v_2318813_25 = PRIM_CAR(v_2318812_25);
+Obj v_b = v_2318813_25;
+Obj v_2318814_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318815_25 = PRIM_CDR(v_2318814_25);
+Obj v_2318816_25 = PRIM_CDR(v_2318815_25);
+Obj v_2318817_25 = PRIM_ISCONS(v_2318816_25);
+if (True == v_2318817_25) {
+Obj v_2318818_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318819_25 = PRIM_CDR(v_2318818_25);
+Obj v_2318820_25 = PRIM_CDR(v_2318819_25);
+Obj v_2318821_25 = PRIM_CAR(v_2318820_25);
+Obj v_c = v_2318821_25;
+Obj v_2318822_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318823_25 = PRIM_CDR(v_2318822_25);
+Obj v_2318824_25 = PRIM_CDR(v_2318823_25);
+Obj v_2318825_25 = PRIM_CDR(v_2318824_25);
+Obj v_2318826_25 = PRIM_EQ(Nil, v_2318825_25);
+if (True == v_2318826_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun46, 3, R);
+saveCont(co, clofun49, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317874_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317874_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317874_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317874_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317874_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317874_25);
+coraCall0(co, v_2317972_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318713_25= co->res;
-Obj v_2318710_25 = R[1];
+Obj v_2318830_25= co->res;
+Obj v_2318827_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318710_25, v_2318713_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318827_25, v_2318830_25);
 return;
 }
 case 2:
 {
-Obj v_2318711_25= co->res;
+Obj v_2318828_25= co->res;
 Obj v_a = R[1];
-Obj v_2318710_25 = R[2];
-Obj v_2318712_25 = makeCons(co->gc, v_a, Nil);
-R[1] = v_2318710_25;
-saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318711_25, v_2318712_25);
+Obj v_2318827_25 = R[2];
+Obj v_2318829_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2318827_25;
+saveCont(co, clofun49, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318828_25, v_2318829_25);
 return;
 }
 case 3:
 {
-Obj v_2318710_25= co->res;
+Obj v_2318827_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
 R[1] = v_a;
-R[2] = v_2318710_25;
-saveCont(co, clofun46, 2, R);
+R[2] = v_2318827_25;
+saveCont(co, clofun49, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_c);
 return;
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317875_25 = makeNative(co->gc, 1, clofun44, 0, 1, closureRef(R[0], 0));
-Obj v_2318674_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318674_25) {
-Obj v_2318675_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318676_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318675_25);
-if (True == v_2318676_25) {
-Obj v_2318677_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318678_25 = PRIM_ISCONS(v_2318677_25);
-if (True == v_2318678_25) {
-Obj v_2318679_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318680_25 = PRIM_CAR(v_2318679_25);
-Obj v_lam = v_2318680_25;
-Obj v_2318681_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318682_25 = PRIM_CDR(v_2318681_25);
-Obj v_more = v_2318682_25;
-Obj v_2318683_25 = makeCons(co->gc, v_lam, v_more);
+Obj v_2317973_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
+Obj v_2318791_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318791_25) {
+Obj v_2318792_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318793_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318792_25);
+if (True == v_2318793_25) {
+Obj v_2318794_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318795_25 = PRIM_ISCONS(v_2318794_25);
+if (True == v_2318795_25) {
+Obj v_2318796_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318797_25 = PRIM_CAR(v_2318796_25);
+Obj v_lam = v_2318797_25;
+Obj v_2318798_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318799_25 = PRIM_CDR(v_2318798_25);
+Obj v_more = v_2318799_25;
+Obj v_2318800_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318683_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318800_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317875_25);
+coraCall0(co, v_2317973_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317875_25);
+coraCall0(co, v_2317973_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317875_25);
+coraCall0(co, v_2317973_25);
 return;
 }
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317876_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj v_2318664_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318664_25) {
-Obj v_2318665_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318666_25 = PRIM_EQ(getBinding(co, packageID, 100).name, v_2318665_25);
-if (True == v_2318666_25) {
-Obj v_2318667_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318668_25 = PRIM_ISCONS(v_2318667_25);
-if (True == v_2318668_25) {
-Obj v_2318669_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318670_25 = PRIM_CAR(v_2318669_25);
-Obj v_x = v_2318670_25;
-Obj v_2318671_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318672_25 = PRIM_CDR(v_2318671_25);
-Obj v_2318673_25 = PRIM_EQ(Nil, v_2318672_25);
-if (True == v_2318673_25) {
+Obj v_2317974_25 = makeNative(co->gc, 1, clofun46, 0, 1, closureRef(R[0], 0));
+Obj v_2318781_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318781_25) {
+Obj v_2318782_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318783_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318782_25);
+if (True == v_2318783_25) {
+Obj v_2318784_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318785_25 = PRIM_ISCONS(v_2318784_25);
+if (True == v_2318785_25) {
+Obj v_2318786_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318787_25 = PRIM_CAR(v_2318786_25);
+Obj v_x = v_2318787_25;
+Obj v_2318788_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318789_25 = PRIM_CDR(v_2318788_25);
+Obj v_2318790_25 = PRIM_EQ(Nil, v_2318789_25);
+if (True == v_2318790_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317876_25);
+coraCall0(co, v_2317974_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317876_25);
+coraCall0(co, v_2317974_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317876_25);
+coraCall0(co, v_2317974_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317876_25);
+coraCall0(co, v_2317974_25);
 return;
 }
 }
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317877_25 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
-Obj v_2318644_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318644_25) {
-Obj v_2318645_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318646_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318645_25);
-if (True == v_2318646_25) {
-Obj v_2318647_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318648_25 = PRIM_ISCONS(v_2318647_25);
-if (True == v_2318648_25) {
-Obj v_2318649_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318650_25 = PRIM_CAR(v_2318649_25);
-Obj v_exp = v_2318650_25;
-Obj v_2318651_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318652_25 = PRIM_CDR(v_2318651_25);
-Obj v_2318653_25 = PRIM_ISCONS(v_2318652_25);
-if (True == v_2318653_25) {
-Obj v_2318654_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318655_25 = PRIM_CDR(v_2318654_25);
-Obj v_2318656_25 = PRIM_CAR(v_2318655_25);
-Obj v_cont = v_2318656_25;
-Obj v_2318657_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318658_25 = PRIM_CDR(v_2318657_25);
-Obj v_2318659_25 = PRIM_CDR(v_2318658_25);
-Obj v_2318660_25 = PRIM_EQ(Nil, v_2318659_25);
-if (True == v_2318660_25) {
-Obj v_2318661_25 = makeCons(co->gc, v_cont, Nil);
-Obj v_2318662_25 = makeCons(co->gc, v_exp, v_2318661_25);
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318662_25);
+Obj v_2317975_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
+Obj v_2318761_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318761_25) {
+Obj v_2318762_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318763_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318762_25);
+if (True == v_2318763_25) {
+Obj v_2318764_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318765_25 = PRIM_ISCONS(v_2318764_25);
+if (True == v_2318765_25) {
+Obj v_2318766_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318767_25 = PRIM_CAR(v_2318766_25);
+Obj v_exp = v_2318767_25;
+Obj v_2318768_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318769_25 = PRIM_CDR(v_2318768_25);
+Obj v_2318770_25 = PRIM_ISCONS(v_2318769_25);
+if (True == v_2318770_25) {
+Obj v_2318771_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318772_25 = PRIM_CDR(v_2318771_25);
+Obj v_2318773_25 = PRIM_CAR(v_2318772_25);
+Obj v_cont = v_2318773_25;
+Obj v_2318774_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318775_25 = PRIM_CDR(v_2318774_25);
+Obj v_2318776_25 = PRIM_CDR(v_2318775_25);
+Obj v_2318777_25 = PRIM_EQ(Nil, v_2318776_25);
+if (True == v_2318777_25) {
+Obj v_2318778_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2318779_25 = makeCons(co->gc, v_exp, v_2318778_25);
+saveCont(co, clofun46, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318779_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317877_25);
+coraCall0(co, v_2317975_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317877_25);
+coraCall0(co, v_2317975_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317877_25);
+coraCall0(co, v_2317975_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317877_25);
+coraCall0(co, v_2317975_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317877_25);
+coraCall0(co, v_2317975_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318663_25= co->res;
+Obj v_2318780_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318663_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318780_25);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317878_25 = makeNative(co->gc, 2, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v_2318634_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318634_25) {
-Obj v_2318635_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318636_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318635_25);
-if (True == v_2318636_25) {
-Obj v_2318637_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318638_25 = PRIM_ISCONS(v_2318637_25);
-if (True == v_2318638_25) {
-Obj v_2318639_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318640_25 = PRIM_CAR(v_2318639_25);
-Obj v_exp = v_2318640_25;
-Obj v_2318641_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318642_25 = PRIM_CDR(v_2318641_25);
-Obj v_2318643_25 = PRIM_EQ(Nil, v_2318642_25);
-if (True == v_2318643_25) {
+Obj v_2317976_25 = makeNative(co->gc, 2, clofun44, 0, 1, closureRef(R[0], 0));
+Obj v_2318751_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318751_25) {
+Obj v_2318752_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318753_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318752_25);
+if (True == v_2318753_25) {
+Obj v_2318754_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318755_25 = PRIM_ISCONS(v_2318754_25);
+if (True == v_2318755_25) {
+Obj v_2318756_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318757_25 = PRIM_CAR(v_2318756_25);
+Obj v_exp = v_2318757_25;
+Obj v_2318758_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318759_25 = PRIM_CDR(v_2318758_25);
+Obj v_2318760_25 = PRIM_EQ(Nil, v_2318759_25);
+if (True == v_2318760_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317878_25);
+coraCall0(co, v_2317976_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317878_25);
+coraCall0(co, v_2317976_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317878_25);
+coraCall0(co, v_2317976_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317878_25);
+coraCall0(co, v_2317976_25);
 return;
 }
 }
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317879_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v_2318616_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318616_25) {
-Obj v_2318617_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318618_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318617_25);
-if (True == v_2318618_25) {
-Obj v_2318619_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318620_25 = PRIM_ISCONS(v_2318619_25);
-if (True == v_2318620_25) {
-Obj v_2318621_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318622_25 = PRIM_CAR(v_2318621_25);
-Obj v_arg = v_2318622_25;
-Obj v_2318623_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318624_25 = PRIM_CDR(v_2318623_25);
-Obj v_2318625_25 = PRIM_ISCONS(v_2318624_25);
-if (True == v_2318625_25) {
-Obj v_2318626_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318627_25 = PRIM_CDR(v_2318626_25);
-Obj v_2318628_25 = PRIM_CAR(v_2318627_25);
-Obj v_body = v_2318628_25;
-Obj v_2318629_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318630_25 = PRIM_CDR(v_2318629_25);
-Obj v_2318631_25 = PRIM_CDR(v_2318630_25);
-Obj v_2318632_25 = PRIM_EQ(Nil, v_2318631_25);
-if (True == v_2318632_25) {
+Obj v_2317977_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v_2318733_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318733_25) {
+Obj v_2318734_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318735_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318734_25);
+if (True == v_2318735_25) {
+Obj v_2318736_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318737_25 = PRIM_ISCONS(v_2318736_25);
+if (True == v_2318737_25) {
+Obj v_2318738_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318739_25 = PRIM_CAR(v_2318738_25);
+Obj v_arg = v_2318739_25;
+Obj v_2318740_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318741_25 = PRIM_CDR(v_2318740_25);
+Obj v_2318742_25 = PRIM_ISCONS(v_2318741_25);
+if (True == v_2318742_25) {
+Obj v_2318743_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318744_25 = PRIM_CDR(v_2318743_25);
+Obj v_2318745_25 = PRIM_CAR(v_2318744_25);
+Obj v_body = v_2318745_25;
+Obj v_2318746_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318747_25 = PRIM_CDR(v_2318746_25);
+Obj v_2318748_25 = PRIM_CDR(v_2318747_25);
+Obj v_2318749_25 = PRIM_EQ(Nil, v_2318748_25);
+if (True == v_2318749_25) {
 R[1] = v_arg;
-saveCont(co, clofun41, 1, R);
+saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317879_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317879_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317879_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317879_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317879_25);
+coraCall0(co, v_2317977_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318633_25= co->res;
+Obj v_2318750_25= co->res;
 Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318633_25, v_arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318750_25, v_arg);
 return;
 }
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318611_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318611_25) {
-Obj v_2318612_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318612_25;
-Obj v_2318613_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318613_25;
-Obj v_2318614_25 = makeCons(co->gc, v_f, v_args);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 71)), v_2318614_25);
+Obj v_2318728_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318728_25) {
+Obj v_2318729_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318729_25;
+Obj v_2318730_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318730_25;
+Obj v_2318731_25 = makeCons(co->gc, v_f, v_args);
+saveCont(co, clofun43, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318731_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2318615_25= co->res;
+Obj v_2318732_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318615_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318732_25);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317860_25 = R[1];
-Obj v_2317861_25 = makeNative(co->gc, 1, clofun38, 0, 1, v_2317860_25);
-Obj v_2318597_25 = PRIM_ISCONS(v_2317860_25);
-if (True == v_2318597_25) {
-Obj v_2318598_25 = PRIM_CAR(v_2317860_25);
-Obj v_2318599_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318598_25);
-if (True == v_2318599_25) {
-Obj v_2318600_25 = PRIM_CDR(v_2317860_25);
-Obj v_2318601_25 = PRIM_ISCONS(v_2318600_25);
-if (True == v_2318601_25) {
-Obj v_2318602_25 = PRIM_CDR(v_2317860_25);
-Obj v_2318603_25 = PRIM_CAR(v_2318602_25);
-Obj v_2318604_25 = PRIM_CDR(v_2317860_25);
-Obj v_2318605_25 = PRIM_CDR(v_2318604_25);
-Obj v_2318606_25 = PRIM_EQ(Nil, v_2318605_25);
-if (True == v_2318606_25) {
+Obj v_2317958_25 = R[1];
+Obj v_2317959_25 = makeNative(co->gc, 1, clofun41, 0, 1, v_2317958_25);
+Obj v_2318714_25 = PRIM_ISCONS(v_2317958_25);
+if (True == v_2318714_25) {
+Obj v_2318715_25 = PRIM_CAR(v_2317958_25);
+Obj v_2318716_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318715_25);
+if (True == v_2318716_25) {
+Obj v_2318717_25 = PRIM_CDR(v_2317958_25);
+Obj v_2318718_25 = PRIM_ISCONS(v_2318717_25);
+if (True == v_2318718_25) {
+Obj v_2318719_25 = PRIM_CDR(v_2317958_25);
+Obj v_2318720_25 = PRIM_CAR(v_2318719_25);
+Obj v_2318721_25 = PRIM_CDR(v_2317958_25);
+Obj v_2318722_25 = PRIM_CDR(v_2318721_25);
+Obj v_2318723_25 = PRIM_EQ(Nil, v_2318722_25);
+if (True == v_2318723_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317861_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317861_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317861_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317861_25);
+coraCall0(co, v_2317959_25);
 return;
 }
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317862_25 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v_2318587_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318587_25) {
-Obj v_2318588_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318589_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318588_25);
-if (True == v_2318589_25) {
-Obj v_2318590_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318591_25 = PRIM_ISCONS(v_2318590_25);
-if (True == v_2318591_25) {
-Obj v_2318592_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318593_25 = PRIM_CAR(v_2318592_25);
-Obj v_2318594_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318595_25 = PRIM_CDR(v_2318594_25);
-Obj v_2318596_25 = PRIM_EQ(Nil, v_2318595_25);
-if (True == v_2318596_25) {
+Obj v_2317960_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v_2318704_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318704_25) {
+Obj v_2318705_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318706_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318705_25);
+if (True == v_2318706_25) {
+Obj v_2318707_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318708_25 = PRIM_ISCONS(v_2318707_25);
+if (True == v_2318708_25) {
+Obj v_2318709_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318710_25 = PRIM_CAR(v_2318709_25);
+Obj v_2318711_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318712_25 = PRIM_CDR(v_2318711_25);
+Obj v_2318713_25 = PRIM_EQ(Nil, v_2318712_25);
+if (True == v_2318713_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317862_25);
+coraCall0(co, v_2317960_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317862_25);
+coraCall0(co, v_2317960_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317862_25);
+coraCall0(co, v_2317960_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317862_25);
+coraCall0(co, v_2317960_25);
 return;
 }
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317863_25 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v_2318577_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318577_25) {
-Obj v_2318578_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318579_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318578_25);
-if (True == v_2318579_25) {
-Obj v_2318580_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318581_25 = PRIM_ISCONS(v_2318580_25);
-if (True == v_2318581_25) {
-Obj v_2318582_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318583_25 = PRIM_CAR(v_2318582_25);
-Obj v_2318584_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318585_25 = PRIM_CDR(v_2318584_25);
-Obj v_2318586_25 = PRIM_EQ(Nil, v_2318585_25);
-if (True == v_2318586_25) {
+Obj v_2317961_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v_2318694_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318694_25) {
+Obj v_2318695_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318696_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2318695_25);
+if (True == v_2318696_25) {
+Obj v_2318697_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318698_25 = PRIM_ISCONS(v_2318697_25);
+if (True == v_2318698_25) {
+Obj v_2318699_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318700_25 = PRIM_CAR(v_2318699_25);
+Obj v_2318701_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318702_25 = PRIM_CDR(v_2318701_25);
+Obj v_2318703_25 = PRIM_EQ(Nil, v_2318702_25);
+if (True == v_2318703_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317863_25);
+coraCall0(co, v_2317961_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317863_25);
+coraCall0(co, v_2317961_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317863_25);
+coraCall0(co, v_2317961_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317863_25);
+coraCall0(co, v_2317961_25);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317864_25 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v_2318567_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318567_25) {
-Obj v_2318568_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318569_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318568_25);
-if (True == v_2318569_25) {
-Obj v_2318570_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318571_25 = PRIM_ISCONS(v_2318570_25);
-if (True == v_2318571_25) {
-Obj v_2318572_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318573_25 = PRIM_CAR(v_2318572_25);
-Obj v_2318574_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318575_25 = PRIM_CDR(v_2318574_25);
-Obj v_2318576_25 = PRIM_EQ(Nil, v_2318575_25);
-if (True == v_2318576_25) {
+Obj v_2317962_25 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v_2318684_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318684_25) {
+Obj v_2318685_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318686_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318685_25);
+if (True == v_2318686_25) {
+Obj v_2318687_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318688_25 = PRIM_ISCONS(v_2318687_25);
+if (True == v_2318688_25) {
+Obj v_2318689_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318690_25 = PRIM_CAR(v_2318689_25);
+Obj v_2318691_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318692_25 = PRIM_CDR(v_2318691_25);
+Obj v_2318693_25 = PRIM_EQ(Nil, v_2318692_25);
+if (True == v_2318693_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317864_25);
+coraCall0(co, v_2317962_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317864_25);
+coraCall0(co, v_2317962_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317864_25);
+coraCall0(co, v_2317962_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317864_25);
+coraCall0(co, v_2317962_25);
 return;
 }
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317865_25 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v_2318557_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318557_25) {
-Obj v_2318558_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318559_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318558_25);
-if (True == v_2318559_25) {
-Obj v_2318560_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318561_25 = PRIM_ISCONS(v_2318560_25);
-if (True == v_2318561_25) {
-Obj v_2318562_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318563_25 = PRIM_CAR(v_2318562_25);
-Obj v_2318564_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318565_25 = PRIM_CDR(v_2318564_25);
-Obj v_2318566_25 = PRIM_EQ(Nil, v_2318565_25);
-if (True == v_2318566_25) {
+Obj v_2317963_25 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2318674_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318674_25) {
+Obj v_2318675_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318676_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318675_25);
+if (True == v_2318676_25) {
+Obj v_2318677_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318678_25 = PRIM_ISCONS(v_2318677_25);
+if (True == v_2318678_25) {
+Obj v_2318679_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318680_25 = PRIM_CAR(v_2318679_25);
+Obj v_2318681_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318682_25 = PRIM_CDR(v_2318681_25);
+Obj v_2318683_25 = PRIM_EQ(Nil, v_2318682_25);
+if (True == v_2318683_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317865_25);
+coraCall0(co, v_2317963_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317865_25);
+coraCall0(co, v_2317963_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317865_25);
+coraCall0(co, v_2317963_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317865_25);
+coraCall0(co, v_2317963_25);
 return;
 }
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317866_25 = makeNative(co->gc, 1, clofun33, 0, 0);
-Obj v_2318547_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318547_25) {
-Obj v_2318548_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318549_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2318548_25);
-if (True == v_2318549_25) {
-Obj v_2318550_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318551_25 = PRIM_ISCONS(v_2318550_25);
-if (True == v_2318551_25) {
-Obj v_2318552_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318553_25 = PRIM_CAR(v_2318552_25);
-Obj v_label = v_2318553_25;
-Obj v_2318554_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318555_25 = PRIM_CDR(v_2318554_25);
-R[1] = v_2317866_25;
-saveCont(co, clofun34, 1, R);
+Obj v_2317964_25 = makeNative(co->gc, 1, clofun36, 0, 0);
+Obj v_2318664_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318664_25) {
+Obj v_2318665_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318666_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318665_25);
+if (True == v_2318666_25) {
+Obj v_2318667_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318668_25 = PRIM_ISCONS(v_2318667_25);
+if (True == v_2318668_25) {
+Obj v_2318669_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318670_25 = PRIM_CAR(v_2318669_25);
+Obj v_label = v_2318670_25;
+Obj v_2318671_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318672_25 = PRIM_CDR(v_2318671_25);
+R[1] = v_2317964_25;
+saveCont(co, clofun37, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317866_25);
+coraCall0(co, v_2317964_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317866_25);
+coraCall0(co, v_2317964_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317866_25);
+coraCall0(co, v_2317964_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318556_25= co->res;
-Obj v_2317866_25 = R[1];
-if (True == v_2318556_25) {
+Obj v_2318673_25= co->res;
+Obj v_2317964_25 = R[1];
+if (True == v_2318673_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317866_25);
+coraCall0(co, v_2317964_25);
 return;
 }
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7585,233 +7590,233 @@ return;
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317855_25 = R[1];
-Obj v_2317856_25 = R[2];
-Obj v_2318536_25 = PRIM_EQ(Nil, v_2317855_25);
-if (True == v_2318536_25) {
+Obj v_2317953_25 = R[1];
+Obj v_2317954_25 = R[2];
+Obj v_2318653_25 = PRIM_EQ(Nil, v_2317953_25);
+if (True == v_2318653_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317858_25 = makeNative(co->gc, 2, clofun31, 0, 2, v_2317855_25, v_2317856_25);
-Obj v_2318542_25 = PRIM_ISCONS(v_2317855_25);
-if (True == v_2318542_25) {
-Obj v_2318543_25 = PRIM_CAR(v_2317855_25);
-Obj v_x = v_2318543_25;
-Obj v_2318544_25 = PRIM_CDR(v_2317855_25);
-Obj v_y = v_2318544_25;
+Obj v_2317956_25 = makeNative(co->gc, 2, clofun34, 0, 2, v_2317953_25, v_2317954_25);
+Obj v_2318659_25 = PRIM_ISCONS(v_2317953_25);
+if (True == v_2318659_25) {
+Obj v_2318660_25 = PRIM_CAR(v_2317953_25);
+Obj v_x = v_2318660_25;
+Obj v_2318661_25 = PRIM_CDR(v_2317953_25);
+Obj v_y = v_2318661_25;
 R[1] = v_y;
-R[2] = v_2317856_25;
-R[3] = v_2317858_25;
-saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317856_25);
+R[2] = v_2317954_25;
+R[3] = v_2317956_25;
+saveCont(co, clofun35, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2317954_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317858_25);
+coraCall0(co, v_2317956_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318545_25= co->res;
+Obj v_2318662_25= co->res;
 Obj v_y = R[1];
-Obj v_2317856_25 = R[2];
-Obj v_2317858_25 = R[3];
-if (True == v_2318545_25) {
+Obj v_2317954_25 = R[2];
+Obj v_2317956_25 = R[3];
+if (True == v_2318662_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2317856_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2317954_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317858_25);
+coraCall0(co, v_2317956_25);
 return;
 }
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318537_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318537_25) {
-Obj v_2318538_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318538_25;
-Obj v_2318539_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318539_25;
+Obj v_2318654_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318654_25) {
+Obj v_2318655_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318655_25;
+Obj v_2318656_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318656_25;
 R[1] = v_x;
-saveCont(co, clofun31, 1, R);
+saveCont(co, clofun34, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2318540_25= co->res;
+Obj v_2318657_25= co->res;
 Obj v_x = R[1];
-Obj v_2318541_25 = makeCons(co->gc, v_x, v_2318540_25);
-coraReturn(co, v_2318541_25);
+Obj v_2318658_25 = makeCons(co->gc, v_x, v_2318657_25);
+coraReturn(co, v_2318658_25);
 return;
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317850_25 = R[1];
-Obj v_2317851_25 = R[2];
-Obj v_2318525_25 = PRIM_EQ(Nil, v_2317850_25);
-if (True == v_2318525_25) {
-coraReturn(co, v_2317851_25);
+Obj v_2317948_25 = R[1];
+Obj v_2317949_25 = R[2];
+Obj v_2318642_25 = PRIM_EQ(Nil, v_2317948_25);
+if (True == v_2318642_25) {
+coraReturn(co, v_2317949_25);
 return;
 } else {
-Obj v_2317853_25 = makeNative(co->gc, 2, clofun29, 0, 2, v_2317850_25, v_2317851_25);
-Obj v_2318531_25 = PRIM_ISCONS(v_2317850_25);
-if (True == v_2318531_25) {
-Obj v_2318532_25 = PRIM_CAR(v_2317850_25);
-Obj v_x = v_2318532_25;
-Obj v_2318533_25 = PRIM_CDR(v_2317850_25);
-Obj v_y = v_2318533_25;
+Obj v_2317951_25 = makeNative(co->gc, 2, clofun32, 0, 2, v_2317948_25, v_2317949_25);
+Obj v_2318648_25 = PRIM_ISCONS(v_2317948_25);
+if (True == v_2318648_25) {
+Obj v_2318649_25 = PRIM_CAR(v_2317948_25);
+Obj v_x = v_2318649_25;
+Obj v_2318650_25 = PRIM_CDR(v_2317948_25);
+Obj v_y = v_2318650_25;
 R[1] = v_y;
-R[2] = v_2317851_25;
-R[3] = v_2317853_25;
-saveCont(co, clofun30, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2317851_25);
+R[2] = v_2317949_25;
+R[3] = v_2317951_25;
+saveCont(co, clofun33, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2317949_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317853_25);
+coraCall0(co, v_2317951_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318534_25= co->res;
+Obj v_2318651_25= co->res;
 Obj v_y = R[1];
-Obj v_2317851_25 = R[2];
-Obj v_2317853_25 = R[3];
-if (True == v_2318534_25) {
+Obj v_2317949_25 = R[2];
+Obj v_2317951_25 = R[3];
+if (True == v_2318651_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2317851_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2317949_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317853_25);
+coraCall0(co, v_2317951_25);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318526_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318526_25) {
-Obj v_2318527_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318527_25;
-Obj v_2318528_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318528_25;
+Obj v_2318643_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318643_25) {
+Obj v_2318644_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318644_25;
+Obj v_2318645_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318645_25;
 R[1] = v_x;
-saveCont(co, clofun29, 1, R);
+saveCont(co, clofun32, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2318529_25= co->res;
+Obj v_2318646_25= co->res;
 Obj v_x = R[1];
-Obj v_2318530_25 = makeCons(co->gc, v_x, v_2318529_25);
-coraReturn(co, v_2318530_25);
+Obj v_2318647_25 = makeCons(co->gc, v_x, v_2318646_25);
+coraReturn(co, v_2318647_25);
 return;
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317835_25 = R[1];
-Obj v_2317836_25 = R[2];
-Obj v_2317837_25 = R[3];
-Obj v_2317838_25 = R[4];
-Obj v_2318002_25 = makeNative(co->gc, 2, clofun27, 1, 4, v_2317836_25, v_2317835_25, v_2317838_25, v_2317837_25);
-R[1] = v_2317838_25;
-R[2] = v_2318002_25;
-saveCont(co, clofun28, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317838_25);
+Obj v_2317933_25 = R[1];
+Obj v_2317934_25 = R[2];
+Obj v_2317935_25 = R[3];
+Obj v_2317936_25 = R[4];
+Obj v_2318103_25 = makeNative(co->gc, 2, clofun30, 1, 4, v_2317934_25, v_2317933_25, v_2317936_25, v_2317935_25);
+R[1] = v_2317936_25;
+R[2] = v_2318103_25;
+saveCont(co, clofun31, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317936_25);
 return;
 }
 case 1:
 {
-Obj v_2318523_25= co->res;
-Obj v_2318002_25 = R[1];
-if (True == v_2318523_25) {
+Obj v_2318640_25= co->res;
+Obj v_2318103_25 = R[1];
+if (True == v_2318640_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318002_25, True);
+coraCall1(co, v_2318103_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318002_25, False);
+coraCall1(co, v_2318103_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318522_25= co->res;
-Obj v_2317838_25 = R[1];
-Obj v_2318002_25 = R[2];
-if (True == v_2318522_25) {
+Obj v_2318639_25= co->res;
+Obj v_2317936_25 = R[1];
+Obj v_2318103_25 = R[2];
+if (True == v_2318639_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318002_25, True);
+coraCall1(co, v_2318103_25, True);
 return;
 } else {
-R[1] = v_2318002_25;
-saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2317838_25);
+R[1] = v_2318103_25;
+saveCont(co, clofun31, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2317936_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2318520_25= co->res;
-Obj v_2317838_25 = R[1];
-Obj v_2318002_25 = R[2];
-if (True == v_2318520_25) {
+Obj v_2318637_25= co->res;
+Obj v_2317936_25 = R[1];
+Obj v_2318103_25 = R[2];
+if (True == v_2318637_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318002_25, True);
+coraCall1(co, v_2318103_25, True);
 return;
 } else {
-Obj v_2318521_25 = primIsString(v_2317838_25);
-if (True == v_2318521_25) {
+Obj v_2318638_25 = primIsString(v_2317936_25);
+if (True == v_2318638_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318002_25, True);
+coraCall1(co, v_2318103_25, True);
 return;
 } else {
-R[1] = v_2317838_25;
-R[2] = v_2318002_25;
-saveCont(co, clofun28, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2317838_25);
+R[1] = v_2317936_25;
+R[2] = v_2318103_25;
+saveCont(co, clofun31, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2317936_25);
 return;
 }
 }
@@ -7819,54 +7824,54 @@ return;
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318003_25 = R[1];
-if (True == v_2318003_25) {
-Obj v_2318325_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2318326_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318325_25);
-coraReturn(co, v_2318326_25);
-return;
-} else {
-Obj v_2317840_25 = makeNative(co->gc, 4, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
-Obj v_2318510_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318510_25) {
-Obj v_2318511_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318512_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318511_25);
-if (True == v_2318512_25) {
-Obj v_2318513_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318514_25 = PRIM_ISCONS(v_2318513_25);
-if (True == v_2318514_25) {
-Obj v_2318515_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318516_25 = PRIM_CAR(v_2318515_25);
-Obj v_x = v_2318516_25;
-Obj v_2318517_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318518_25 = PRIM_CDR(v_2318517_25);
-Obj v_2318519_25 = PRIM_EQ(Nil, v_2318518_25);
-if (True == v_2318519_25) {
+Obj v_2318104_25 = R[1];
+if (True == v_2318104_25) {
+Obj v_2318440_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318440_25);
+coraReturn(co, v_2318441_25);
+return;
+} else {
+Obj v_2317938_25 = makeNative(co->gc, 4, clofun29, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
+Obj v_2318627_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318627_25) {
+Obj v_2318628_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318629_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318628_25);
+if (True == v_2318629_25) {
+Obj v_2318630_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318631_25 = PRIM_ISCONS(v_2318630_25);
+if (True == v_2318631_25) {
+Obj v_2318632_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318633_25 = PRIM_CAR(v_2318632_25);
+Obj v_x = v_2318633_25;
+Obj v_2318634_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318635_25 = PRIM_CDR(v_2318634_25);
+Obj v_2318636_25 = PRIM_EQ(Nil, v_2318635_25);
+if (True == v_2318636_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_x, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317840_25);
+coraCall0(co, v_2317938_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317840_25);
+coraCall0(co, v_2317938_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317840_25);
+coraCall0(co, v_2317938_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317840_25);
+coraCall0(co, v_2317938_25);
 return;
 }
 }
@@ -7874,631 +7879,631 @@ return;
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318327_25 = primIsSymbol(closureRef(R[0], 1));
-if (True == v_2318327_25) {
-saveCont(co, clofun26, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2318442_25 = primIsSymbol(closureRef(R[0], 1));
+if (True == v_2318442_25) {
+saveCont(co, clofun29, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2317842_25 = makeNative(co->gc, 1, clofun25, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
-Obj v_2318485_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318485_25) {
-Obj v_2318486_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318487_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318486_25);
-if (True == v_2318487_25) {
-Obj v_2318488_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318489_25 = PRIM_ISCONS(v_2318488_25);
-if (True == v_2318489_25) {
-Obj v_2318490_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318491_25 = PRIM_CAR(v_2318490_25);
-Obj v_args = v_2318491_25;
-Obj v_2318492_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318493_25 = PRIM_CDR(v_2318492_25);
-Obj v_2318494_25 = PRIM_ISCONS(v_2318493_25);
-if (True == v_2318494_25) {
-Obj v_2318495_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318496_25 = PRIM_CDR(v_2318495_25);
-Obj v_2318497_25 = PRIM_CAR(v_2318496_25);
-Obj v_body = v_2318497_25;
-Obj v_2318498_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318499_25 = PRIM_CDR(v_2318498_25);
-Obj v_2318500_25 = PRIM_CDR(v_2318499_25);
-Obj v_2318501_25 = PRIM_EQ(Nil, v_2318500_25);
-if (True == v_2318501_25) {
-Obj v_2318502_25 = primGenSym(co);
-Obj v_used1 = v_2318502_25;
+Obj v_2317940_25 = makeNative(co->gc, 1, clofun28, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
+Obj v_2318602_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318602_25) {
+Obj v_2318603_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318604_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318603_25);
+if (True == v_2318604_25) {
+Obj v_2318605_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318606_25 = PRIM_ISCONS(v_2318605_25);
+if (True == v_2318606_25) {
+Obj v_2318607_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318608_25 = PRIM_CAR(v_2318607_25);
+Obj v_args = v_2318608_25;
+Obj v_2318609_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318610_25 = PRIM_CDR(v_2318609_25);
+Obj v_2318611_25 = PRIM_ISCONS(v_2318610_25);
+if (True == v_2318611_25) {
+Obj v_2318612_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318613_25 = PRIM_CDR(v_2318612_25);
+Obj v_2318614_25 = PRIM_CAR(v_2318613_25);
+Obj v_body = v_2318614_25;
+Obj v_2318615_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318616_25 = PRIM_CDR(v_2318615_25);
+Obj v_2318617_25 = PRIM_CDR(v_2318616_25);
+Obj v_2318618_25 = PRIM_EQ(Nil, v_2318617_25);
+if (True == v_2318618_25) {
+Obj v_2318619_25 = primGenSym(co);
+Obj v_used1 = v_2318619_25;
 R[1] = v_args;
 R[2] = v_used1;
 R[3] = v_body;
-saveCont(co, clofun26, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), globalRef(co, getBinding(co, packageID, 102)), v_args);
+saveCont(co, clofun29, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 101)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317842_25);
+coraCall0(co, v_2317940_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317842_25);
+coraCall0(co, v_2317940_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317842_25);
+coraCall0(co, v_2317940_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317842_25);
+coraCall0(co, v_2317940_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317842_25);
+coraCall0(co, v_2317940_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318330_25= co->res;
-Obj v_2318331_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v_2318332_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318331_25);
-coraReturn(co, v_2318332_25);
+Obj v_2318445_25= co->res;
+Obj v_2318446_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2318447_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318446_25);
+coraReturn(co, v_2318447_25);
 return;
 }
 case 2:
 {
-Obj v_2318329_25= co->res;
+Obj v_2318444_25= co->res;
 Obj v_find = R[1];
-if (True == v_2318329_25) {
-saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), closureRef(R[0], 1), closureRef(R[0], 3));
+if (True == v_2318444_25) {
+saveCont(co, clofun29, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 3));
 return;
 } else {
-Obj v_2318333_25 = PRIM_CDR(v_find);
-coraReturn(co, v_2318333_25);
+Obj v_2318448_25 = PRIM_CDR(v_find);
+coraReturn(co, v_2318448_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2318328_25= co->res;
-Obj v_find = v_2318328_25;
+Obj v_2318443_25= co->res;
+Obj v_find = v_2318443_25;
 R[1] = v_find;
-saveCont(co, clofun26, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
+saveCont(co, clofun29, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_find);
 return;
 }
 case 4:
 {
-Obj v_2318506_25= co->res;
+Obj v_2318623_25= co->res;
 Obj v_args1 = R[1];
-Obj v_2318507_25 = makeCons(co->gc, v_2318506_25, Nil);
-Obj v_2318508_25 = makeCons(co->gc, v_args1, v_2318507_25);
-Obj v_2318509_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318508_25);
-coraReturn(co, v_2318509_25);
+Obj v_2318624_25 = makeCons(co->gc, v_2318623_25, Nil);
+Obj v_2318625_25 = makeCons(co->gc, v_args1, v_2318624_25);
+Obj v_2318626_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318625_25);
+coraReturn(co, v_2318626_25);
 return;
 }
 case 5:
 {
-Obj v_2318505_25= co->res;
+Obj v_2318622_25= co->res;
 Obj v_used1 = R[1];
 Obj v_body = R[2];
 Obj v_args1 = R[3];
 R[1] = v_args1;
-saveCont(co, clofun26, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318505_25, v_used1, closureRef(R[0], 3), v_body);
+saveCont(co, clofun29, 4, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), v_2318622_25, v_used1, closureRef(R[0], 3), v_body);
 return;
 }
 case 6:
 {
-Obj v_2318503_25= co->res;
+Obj v_2318620_25= co->res;
 Obj v_args = R[1];
 Obj v_used1 = R[2];
 Obj v_body = R[3];
-Obj v_args1 = v_2318503_25;
-Obj v_2318504_25 = primSet(co, v_used1, v_args);
+Obj v_args1 = v_2318620_25;
+Obj v_2318621_25 = primSet(co, v_used1, v_args);
 R[1] = v_used1;
 R[2] = v_body;
 R[3] = v_args1;
-saveCont(co, clofun26, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 90)), v_args, v_args1, closureRef(R[0], 2));
+saveCont(co, clofun29, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 89)), v_args, v_args1, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317843_25 = makeNative(co->gc, 2, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318453_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318453_25) {
-Obj v_2318454_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318455_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318454_25);
-if (True == v_2318455_25) {
-Obj v_2318456_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318457_25 = PRIM_ISCONS(v_2318456_25);
-if (True == v_2318457_25) {
-Obj v_2318458_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318459_25 = PRIM_CAR(v_2318458_25);
-Obj v_2318460_25 = PRIM_ISCONS(v_2318459_25);
-if (True == v_2318460_25) {
-Obj v_2318461_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318462_25 = PRIM_CAR(v_2318461_25);
-Obj v_2318463_25 = PRIM_CAR(v_2318462_25);
-Obj v_2318464_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318463_25);
-if (True == v_2318464_25) {
-Obj v_2318465_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318466_25 = PRIM_CAR(v_2318465_25);
-Obj v_2318467_25 = PRIM_CDR(v_2318466_25);
-Obj v_exp1 = v_2318467_25;
-Obj v_2318468_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318469_25 = PRIM_CDR(v_2318468_25);
-Obj v_exp2 = v_2318469_25;
-Obj v_2318470_25 = primGenSym(co);
-Obj v_f = v_2318470_25;
-Obj v_2318471_25 = primGenSym(co);
-Obj v_v = v_2318471_25;
-Obj v_2318472_25 = makeCons(co->gc, v_v, Nil);
-Obj v_2318473_25 = makeCons(co->gc, v_v, v_exp2);
-Obj v_2318474_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318473_25);
-Obj v_2318475_25 = makeCons(co->gc, v_2318474_25, Nil);
-Obj v_2318476_25 = makeCons(co->gc, v_2318472_25, v_2318475_25);
-Obj v_2318477_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318476_25);
-Obj v_2318478_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp1);
-Obj v_2318479_25 = makeCons(co->gc, v_2318478_25, Nil);
-Obj v_2318480_25 = makeCons(co->gc, v_f, v_2318479_25);
-Obj v_2318481_25 = makeCons(co->gc, v_2318480_25, Nil);
-Obj v_2318482_25 = makeCons(co->gc, v_2318477_25, v_2318481_25);
-Obj v_2318483_25 = makeCons(co->gc, v_f, v_2318482_25);
-Obj v_2318484_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318483_25);
+Obj v_2317941_25 = makeNative(co->gc, 2, clofun27, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318570_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318570_25) {
+Obj v_2318571_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318572_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318571_25);
+if (True == v_2318572_25) {
+Obj v_2318573_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318574_25 = PRIM_ISCONS(v_2318573_25);
+if (True == v_2318574_25) {
+Obj v_2318575_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318576_25 = PRIM_CAR(v_2318575_25);
+Obj v_2318577_25 = PRIM_ISCONS(v_2318576_25);
+if (True == v_2318577_25) {
+Obj v_2318578_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318579_25 = PRIM_CAR(v_2318578_25);
+Obj v_2318580_25 = PRIM_CAR(v_2318579_25);
+Obj v_2318581_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318580_25);
+if (True == v_2318581_25) {
+Obj v_2318582_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318583_25 = PRIM_CAR(v_2318582_25);
+Obj v_2318584_25 = PRIM_CDR(v_2318583_25);
+Obj v_exp1 = v_2318584_25;
+Obj v_2318585_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318586_25 = PRIM_CDR(v_2318585_25);
+Obj v_exp2 = v_2318586_25;
+Obj v_2318587_25 = primGenSym(co);
+Obj v_f = v_2318587_25;
+Obj v_2318588_25 = primGenSym(co);
+Obj v_v = v_2318588_25;
+Obj v_2318589_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2318590_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2318591_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318590_25);
+Obj v_2318592_25 = makeCons(co->gc, v_2318591_25, Nil);
+Obj v_2318593_25 = makeCons(co->gc, v_2318589_25, v_2318592_25);
+Obj v_2318594_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318593_25);
+Obj v_2318595_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_exp1);
+Obj v_2318596_25 = makeCons(co->gc, v_2318595_25, Nil);
+Obj v_2318597_25 = makeCons(co->gc, v_f, v_2318596_25);
+Obj v_2318598_25 = makeCons(co->gc, v_2318597_25, Nil);
+Obj v_2318599_25 = makeCons(co->gc, v_2318594_25, v_2318598_25);
+Obj v_2318600_25 = makeCons(co->gc, v_f, v_2318599_25);
+Obj v_2318601_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318600_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318484_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318601_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317843_25);
+coraCall0(co, v_2317941_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317843_25);
+coraCall0(co, v_2317941_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317843_25);
+coraCall0(co, v_2317941_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317843_25);
+coraCall0(co, v_2317941_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317843_25);
+coraCall0(co, v_2317941_25);
 return;
 }
 }
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317844_25 = makeNative(co->gc, 2, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318446_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318446_25) {
-Obj v_2318447_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318448_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318447_25);
-if (True == v_2318448_25) {
-Obj v_2318449_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318449_25;
+Obj v_2317942_25 = makeNative(co->gc, 2, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318563_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318563_25) {
+Obj v_2318564_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318565_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318564_25);
+if (True == v_2318565_25) {
+Obj v_2318566_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318566_25;
 R[1] = v_args;
-saveCont(co, clofun24, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+saveCont(co, clofun27, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317844_25);
+coraCall0(co, v_2317942_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317844_25);
+coraCall0(co, v_2317942_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318451_25= co->res;
-Obj v_2318452_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_2318451_25);
-coraReturn(co, v_2318452_25);
+Obj v_2318568_25= co->res;
+Obj v_2318569_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318568_25);
+coraReturn(co, v_2318569_25);
 return;
 }
 case 2:
 {
-Obj v_2318450_25= co->res;
+Obj v_2318567_25= co->res;
 Obj v_args = R[1];
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318450_25, v_args);
+saveCont(co, clofun27, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318567_25, v_args);
 return;
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317845_25 = makeNative(co->gc, 4, clofun22, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318424_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318424_25) {
-Obj v_2318425_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318426_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318425_25);
-if (True == v_2318426_25) {
-Obj v_2318427_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318428_25 = PRIM_ISCONS(v_2318427_25);
-if (True == v_2318428_25) {
-Obj v_2318429_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318430_25 = PRIM_CAR(v_2318429_25);
-Obj v_x = v_2318430_25;
-Obj v_2318431_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318432_25 = PRIM_CDR(v_2318431_25);
-Obj v_2318433_25 = PRIM_ISCONS(v_2318432_25);
-if (True == v_2318433_25) {
-Obj v_2318434_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318435_25 = PRIM_CDR(v_2318434_25);
-Obj v_2318436_25 = PRIM_CAR(v_2318435_25);
-Obj v_y = v_2318436_25;
-Obj v_2318437_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318438_25 = PRIM_CDR(v_2318437_25);
-Obj v_2318439_25 = PRIM_CDR(v_2318438_25);
-Obj v_2318440_25 = PRIM_EQ(Nil, v_2318439_25);
-if (True == v_2318440_25) {
+Obj v_2317943_25 = makeNative(co->gc, 4, clofun25, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318541_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318541_25) {
+Obj v_2318542_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318543_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318542_25);
+if (True == v_2318543_25) {
+Obj v_2318544_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318545_25 = PRIM_ISCONS(v_2318544_25);
+if (True == v_2318545_25) {
+Obj v_2318546_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318547_25 = PRIM_CAR(v_2318546_25);
+Obj v_x = v_2318547_25;
+Obj v_2318548_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318549_25 = PRIM_CDR(v_2318548_25);
+Obj v_2318550_25 = PRIM_ISCONS(v_2318549_25);
+if (True == v_2318550_25) {
+Obj v_2318551_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318552_25 = PRIM_CDR(v_2318551_25);
+Obj v_2318553_25 = PRIM_CAR(v_2318552_25);
+Obj v_y = v_2318553_25;
+Obj v_2318554_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318555_25 = PRIM_CDR(v_2318554_25);
+Obj v_2318556_25 = PRIM_CDR(v_2318555_25);
+Obj v_2318557_25 = PRIM_EQ(Nil, v_2318556_25);
+if (True == v_2318557_25) {
 R[1] = v_y;
-saveCont(co, clofun23, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_x);
+saveCont(co, clofun26, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317845_25);
+coraCall0(co, v_2317943_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317845_25);
+coraCall0(co, v_2317943_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317845_25);
+coraCall0(co, v_2317943_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317845_25);
+coraCall0(co, v_2317943_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317845_25);
+coraCall0(co, v_2317943_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318442_25= co->res;
-Obj v_2318441_25 = R[1];
-Obj v_2318443_25 = makeCons(co->gc, v_2318442_25, Nil);
-Obj v_2318444_25 = makeCons(co->gc, v_2318441_25, v_2318443_25);
-Obj v_2318445_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318444_25);
-coraReturn(co, v_2318445_25);
+Obj v_2318559_25= co->res;
+Obj v_2318558_25 = R[1];
+Obj v_2318560_25 = makeCons(co->gc, v_2318559_25, Nil);
+Obj v_2318561_25 = makeCons(co->gc, v_2318558_25, v_2318560_25);
+Obj v_2318562_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318561_25);
+coraReturn(co, v_2318562_25);
 return;
 }
 case 2:
 {
-Obj v_2318441_25= co->res;
+Obj v_2318558_25= co->res;
 Obj v_y = R[1];
-R[1] = v_2318441_25;
-saveCont(co, clofun23, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_y);
+R[1] = v_2318558_25;
+saveCont(co, clofun26, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_y);
 return;
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317846_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318389_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318389_25) {
-Obj v_2318390_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318391_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318390_25);
-if (True == v_2318391_25) {
-Obj v_2318392_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318393_25 = PRIM_ISCONS(v_2318392_25);
-if (True == v_2318393_25) {
-Obj v_2318394_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318395_25 = PRIM_CAR(v_2318394_25);
-Obj v_a = v_2318395_25;
-Obj v_2318396_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318397_25 = PRIM_CDR(v_2318396_25);
-Obj v_2318398_25 = PRIM_ISCONS(v_2318397_25);
-if (True == v_2318398_25) {
-Obj v_2318399_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318400_25 = PRIM_CDR(v_2318399_25);
-Obj v_2318401_25 = PRIM_CAR(v_2318400_25);
-Obj v_b = v_2318401_25;
-Obj v_2318402_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318403_25 = PRIM_CDR(v_2318402_25);
-Obj v_2318404_25 = PRIM_CDR(v_2318403_25);
-Obj v_2318405_25 = PRIM_ISCONS(v_2318404_25);
-if (True == v_2318405_25) {
-Obj v_2318406_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318407_25 = PRIM_CDR(v_2318406_25);
-Obj v_2318408_25 = PRIM_CDR(v_2318407_25);
-Obj v_2318409_25 = PRIM_CAR(v_2318408_25);
-Obj v_c = v_2318409_25;
-Obj v_2318410_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318411_25 = PRIM_CDR(v_2318410_25);
-Obj v_2318412_25 = PRIM_CDR(v_2318411_25);
-Obj v_2318413_25 = PRIM_CDR(v_2318412_25);
-Obj v_2318414_25 = PRIM_EQ(Nil, v_2318413_25);
-if (True == v_2318414_25) {
+Obj v_2317944_25 = makeNative(co->gc, 1, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318506_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318506_25) {
+Obj v_2318507_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318508_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318507_25);
+if (True == v_2318508_25) {
+Obj v_2318509_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318510_25 = PRIM_ISCONS(v_2318509_25);
+if (True == v_2318510_25) {
+Obj v_2318511_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318512_25 = PRIM_CAR(v_2318511_25);
+Obj v_a = v_2318512_25;
+Obj v_2318513_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318514_25 = PRIM_CDR(v_2318513_25);
+Obj v_2318515_25 = PRIM_ISCONS(v_2318514_25);
+if (True == v_2318515_25) {
+Obj v_2318516_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318517_25 = PRIM_CDR(v_2318516_25);
+Obj v_2318518_25 = PRIM_CAR(v_2318517_25);
+Obj v_b = v_2318518_25;
+Obj v_2318519_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318520_25 = PRIM_CDR(v_2318519_25);
+Obj v_2318521_25 = PRIM_CDR(v_2318520_25);
+Obj v_2318522_25 = PRIM_ISCONS(v_2318521_25);
+if (True == v_2318522_25) {
+Obj v_2318523_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318524_25 = PRIM_CDR(v_2318523_25);
+Obj v_2318525_25 = PRIM_CDR(v_2318524_25);
+Obj v_2318526_25 = PRIM_CAR(v_2318525_25);
+Obj v_c = v_2318526_25;
+Obj v_2318527_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318528_25 = PRIM_CDR(v_2318527_25);
+Obj v_2318529_25 = PRIM_CDR(v_2318528_25);
+Obj v_2318530_25 = PRIM_CDR(v_2318529_25);
+Obj v_2318531_25 = PRIM_EQ(Nil, v_2318530_25);
+if (True == v_2318531_25) {
 R[1] = v_a;
 R[2] = v_c;
-saveCont(co, clofun22, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_b);
+saveCont(co, clofun25, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317846_25);
+coraCall0(co, v_2317944_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317846_25);
+coraCall0(co, v_2317944_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317846_25);
+coraCall0(co, v_2317944_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317846_25);
+coraCall0(co, v_2317944_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317846_25);
+coraCall0(co, v_2317944_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317846_25);
+coraCall0(co, v_2317944_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318419_25= co->res;
+Obj v_2318536_25= co->res;
 Obj v_b1 = R[1];
 Obj v_a1 = R[2];
-Obj v_2318420_25 = makeCons(co->gc, v_2318419_25, Nil);
-Obj v_2318421_25 = makeCons(co->gc, v_b1, v_2318420_25);
-Obj v_2318422_25 = makeCons(co->gc, v_a1, v_2318421_25);
-Obj v_2318423_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318422_25);
-coraReturn(co, v_2318423_25);
+Obj v_2318537_25 = makeCons(co->gc, v_2318536_25, Nil);
+Obj v_2318538_25 = makeCons(co->gc, v_b1, v_2318537_25);
+Obj v_2318539_25 = makeCons(co->gc, v_a1, v_2318538_25);
+Obj v_2318540_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318539_25);
+coraReturn(co, v_2318540_25);
 return;
 }
 case 2:
 {
-Obj v_2318416_25= co->res;
+Obj v_2318533_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 Obj v_b1 = R[3];
-Obj v_a1 = v_2318416_25;
-Obj v_2318417_25 = makeCons(co->gc, v_a, v_a1);
-Obj v_2318418_25 = makeCons(co->gc, v_2318417_25, closureRef(R[0], 1));
+Obj v_a1 = v_2318533_25;
+Obj v_2318534_25 = makeCons(co->gc, v_a, v_a1);
+Obj v_2318535_25 = makeCons(co->gc, v_2318534_25, closureRef(R[0], 1));
 R[1] = v_b1;
 R[2] = v_a1;
-saveCont(co, clofun22, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_2318418_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+saveCont(co, clofun25, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), v_2318535_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 case 3:
 {
-Obj v_2318415_25= co->res;
+Obj v_2318532_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_b1 = v_2318415_25;
+Obj v_b1 = v_2318532_25;
 R[1] = v_a;
 R[2] = v_c;
 R[3] = v_b1;
-saveCont(co, clofun22, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 89)), v_a, closureRef(R[0], 1), closureRef(R[0], 2));
+saveCont(co, clofun25, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 88)), v_a, closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317847_25 = makeNative(co->gc, 3, clofun20, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
-Obj v_2318357_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318357_25) {
-Obj v_2318358_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318359_25 = PRIM_ISCONS(v_2318358_25);
-if (True == v_2318359_25) {
-Obj v_2318360_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318361_25 = PRIM_CAR(v_2318360_25);
-Obj v_2318362_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2318361_25);
-if (True == v_2318362_25) {
-Obj v_2318363_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318364_25 = PRIM_CDR(v_2318363_25);
-Obj v_exp1 = v_2318364_25;
-Obj v_2318365_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318366_25 = PRIM_ISCONS(v_2318365_25);
-if (True == v_2318366_25) {
-Obj v_2318367_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318368_25 = PRIM_CAR(v_2318367_25);
-Obj v_2318369_25 = PRIM_ISCONS(v_2318368_25);
-if (True == v_2318369_25) {
-Obj v_2318370_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318371_25 = PRIM_CAR(v_2318370_25);
-Obj v_2318372_25 = PRIM_CAR(v_2318371_25);
-Obj v_2318373_25 = PRIM_EQ(getBinding(co, packageID, 80).name, v_2318372_25);
-if (True == v_2318373_25) {
-Obj v_2318374_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318375_25 = PRIM_CAR(v_2318374_25);
-Obj v_2318376_25 = PRIM_CDR(v_2318375_25);
-Obj v_exp2 = v_2318376_25;
-Obj v_2318377_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318378_25 = PRIM_CDR(v_2318377_25);
-Obj v_2318379_25 = PRIM_EQ(Nil, v_2318378_25);
-if (True == v_2318379_25) {
-Obj v_2318380_25 = primGenSym(co);
-Obj v_f = v_2318380_25;
-Obj v_2318381_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_exp1);
-Obj v_2318382_25 = makeCons(co->gc, getBinding(co, packageID, 80).name, v_exp2);
-Obj v_2318383_25 = makeCons(co->gc, v_2318382_25, Nil);
-Obj v_2318384_25 = makeCons(co->gc, v_f, v_2318383_25);
-Obj v_2318385_25 = makeCons(co->gc, v_2318384_25, Nil);
-Obj v_2318386_25 = makeCons(co->gc, v_2318381_25, v_2318385_25);
-Obj v_2318387_25 = makeCons(co->gc, v_f, v_2318386_25);
-Obj v_2318388_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318387_25);
+Obj v_2317945_25 = makeNative(co->gc, 3, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
+Obj v_2318474_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318474_25) {
+Obj v_2318475_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318476_25 = PRIM_ISCONS(v_2318475_25);
+if (True == v_2318476_25) {
+Obj v_2318477_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318478_25 = PRIM_CAR(v_2318477_25);
+Obj v_2318479_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318478_25);
+if (True == v_2318479_25) {
+Obj v_2318480_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318481_25 = PRIM_CDR(v_2318480_25);
+Obj v_exp1 = v_2318481_25;
+Obj v_2318482_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318483_25 = PRIM_ISCONS(v_2318482_25);
+if (True == v_2318483_25) {
+Obj v_2318484_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318485_25 = PRIM_CAR(v_2318484_25);
+Obj v_2318486_25 = PRIM_ISCONS(v_2318485_25);
+if (True == v_2318486_25) {
+Obj v_2318487_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318488_25 = PRIM_CAR(v_2318487_25);
+Obj v_2318489_25 = PRIM_CAR(v_2318488_25);
+Obj v_2318490_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318489_25);
+if (True == v_2318490_25) {
+Obj v_2318491_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318492_25 = PRIM_CAR(v_2318491_25);
+Obj v_2318493_25 = PRIM_CDR(v_2318492_25);
+Obj v_exp2 = v_2318493_25;
+Obj v_2318494_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318495_25 = PRIM_CDR(v_2318494_25);
+Obj v_2318496_25 = PRIM_EQ(Nil, v_2318495_25);
+if (True == v_2318496_25) {
+Obj v_2318497_25 = primGenSym(co);
+Obj v_f = v_2318497_25;
+Obj v_2318498_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_exp1);
+Obj v_2318499_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_exp2);
+Obj v_2318500_25 = makeCons(co->gc, v_2318499_25, Nil);
+Obj v_2318501_25 = makeCons(co->gc, v_f, v_2318500_25);
+Obj v_2318502_25 = makeCons(co->gc, v_2318501_25, Nil);
+Obj v_2318503_25 = makeCons(co->gc, v_2318498_25, v_2318502_25);
+Obj v_2318504_25 = makeCons(co->gc, v_f, v_2318503_25);
+Obj v_2318505_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318504_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318388_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318505_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317847_25);
+coraCall0(co, v_2317945_25);
 return;
 }
 }
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317848_25 = makeNative(co->gc, 1, clofun18, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v_2318335_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318335_25) {
-Obj v_2318336_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2318336_25;
-Obj v_2318337_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318337_25;
-Obj v_2318013_25 = makeNative(co->gc, 2, clofun19, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_op, v_args, v_2317848_25);
+Obj v_2317946_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2318450_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318450_25) {
+Obj v_2318451_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2318451_25;
+Obj v_2318452_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318452_25;
+Obj v_2318114_25 = makeNative(co->gc, 3, clofun22, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_args, v_op, v_2317946_25);
 R[1] = v_op;
-R[2] = v_2318013_25;
-saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_op);
+R[2] = v_2318114_25;
+saveCont(co, clofun23, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 110)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317848_25);
+coraCall0(co, v_2317946_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318356_25= co->res;
-Obj v_2318013_25 = R[1];
-if (True == v_2318356_25) {
+Obj v_2318473_25= co->res;
+Obj v_2318114_25 = R[1];
+if (True == v_2318473_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318013_25, True);
+coraCall1(co, v_2318114_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318013_25, False);
+coraCall1(co, v_2318114_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318355_25= co->res;
-Obj v_2318013_25 = R[1];
-R[1] = v_2318013_25;
-saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2318355_25);
+Obj v_2318472_25= co->res;
+Obj v_2318114_25 = R[1];
+R[1] = v_2318114_25;
+saveCont(co, clofun23, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318472_25);
 return;
 }
 case 3:
 {
-Obj v_2318354_25= co->res;
+Obj v_2318471_25= co->res;
 Obj v_op = R[1];
-Obj v_2318013_25 = R[2];
-if (True == v_2318354_25) {
-R[1] = v_2318013_25;
-saveCont(co, clofun20, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_op, closureRef(R[0], 3));
+Obj v_2318114_25 = R[2];
+if (True == v_2318471_25) {
+R[1] = v_2318114_25;
+saveCont(co, clofun23, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_op, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318013_25, False);
+coraCall1(co, v_2318114_25, False);
 return;
 }
 }
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318014_25 = R[1];
-if (True == v_2318014_25) {
-saveCont(co, clofun19, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), closureRef(R[0], 3));
+Obj v_2318115_25 = R[1];
+if (True == v_2318115_25) {
+saveCont(co, clofun22, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
@@ -8508,370 +8513,391 @@ return;
 }
 case 1:
 {
-Obj v_2318344_25= co->res;
-Obj v_2318342_25 = R[1];
-Obj v_2318345_25 = makeCons(co->gc, v_2318342_25, v_2318344_25);
-coraReturn(co, v_2318345_25);
+Obj v_2318459_25= co->res;
+Obj v_2318457_25 = R[1];
+Obj v_2318460_25 = makeCons(co->gc, v_2318457_25, v_2318459_25);
+coraReturn(co, v_2318460_25);
 return;
 }
 case 2:
 {
-Obj v_2318343_25= co->res;
-Obj v_2318342_25 = R[1];
-R[1] = v_2318342_25;
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318343_25, closureRef(R[0], 4));
+Obj v_2318458_25= co->res;
+Obj v_2318457_25 = R[1];
+R[1] = v_2318457_25;
+saveCont(co, clofun22, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318458_25, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v_2318350_25= co->res;
-Obj v_tmp = R[1];
-Obj v_2318351_25 = makeCons(co->gc, v_2318350_25, Nil);
-Obj v_2318352_25 = makeCons(co->gc, v_tmp, v_2318351_25);
-Obj v_2318353_25 = makeCons(co->gc, getBinding(co, packageID, 82).name, v_2318352_25);
+Obj v_2318470_25= co->res;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2318353_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2318470_25);
 return;
 }
 case 4:
 {
-Obj v_2318348_25= co->res;
-Obj v_tmp = v_2318348_25;
-Obj v_2318349_25 = makeCons(co->gc, closureRef(R[0], 3), closureRef(R[0], 4));
-R[1] = v_tmp;
-saveCont(co, clofun19, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_2318349_25, v_tmp);
+Obj v_2318466_25= co->res;
+Obj v_tmp = R[1];
+Obj v_vars = R[2];
+Obj v_2318467_25 = makeCons(co->gc, v_2318466_25, Nil);
+Obj v_2318468_25 = makeCons(co->gc, v_tmp, v_2318467_25);
+Obj v_2318469_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318468_25);
+saveCont(co, clofun22, 3, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 103)), v_vars, closureRef(R[0], 3), v_2318469_25);
 return;
 }
 case 5:
 {
-Obj v_2318339_25= co->res;
+Obj v_2318464_25= co->res;
+Obj v_tmp = R[1];
+Obj v_vars = v_2318464_25;
+Obj v_2318465_25 = makeCons(co->gc, closureRef(R[0], 4), v_vars);
+R[1] = v_tmp;
+R[2] = v_vars;
+saveCont(co, clofun22, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2318465_25, v_tmp);
+return;
+}
+case 6:
+{
+Obj v_2318463_25= co->res;
+Obj v_provided = R[1];
+Obj v_tmp = v_2318463_25;
+R[1] = v_tmp;
+saveCont(co, clofun22, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_provided, Nil);
+return;
+}
+case 7:
+{
+Obj v_2318454_25= co->res;
 Obj v_required = R[1];
-Obj v_provided = v_2318339_25;
-Obj v_2318340_25 = PRIM_EQ(v_required, v_provided);
-if (True == v_2318340_25) {
-Obj v_2318341_25 = makeCons(co->gc, closureRef(R[0], 3), Nil);
-Obj v_2318342_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318341_25);
-R[1] = v_2318342_25;
-saveCont(co, clofun19, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_provided = v_2318454_25;
+Obj v_2318455_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2318455_25) {
+Obj v_2318456_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2318457_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2318456_25);
+R[1] = v_2318457_25;
+saveCont(co, clofun22, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2318346_25 = PRIM_GT(v_required, v_provided);
-if (True == v_2318346_25) {
-Obj v_2318347_25 = PRIM_SUB(v_required, v_provided);
-saveCont(co, clofun19, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2318347_25, Nil);
+Obj v_2318461_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2318461_25) {
+Obj v_2318462_25 = PRIM_SUB(v_required, v_provided);
+R[1] = v_provided;
+saveCont(co, clofun22, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318462_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
-case 6:
+case 8:
 {
-Obj v_2318338_25= co->res;
-Obj v_required = v_2318338_25;
+Obj v_2318453_25= co->res;
+Obj v_required = v_2318453_25;
 R[1] = v_required;
-saveCont(co, clofun19, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), closureRef(R[0], 4));
+saveCont(co, clofun22, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun18, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+saveCont(co, clofun21, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2318334_25= co->res;
+Obj v_2318449_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v_2318334_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318449_25, closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317830_25 = R[1];
-Obj v_2317831_25 = R[2];
-Obj v_2318308_25 = primIsSymbol(v_2317830_25);
-if (True == v_2318308_25) {
-R[1] = v_2317830_25;
-saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_2317830_25, v_2317831_25);
+Obj v_2317928_25 = R[1];
+Obj v_2317929_25 = R[2];
+Obj v_2318423_25 = primIsSymbol(v_2317928_25);
+if (True == v_2318423_25) {
+R[1] = v_2317928_25;
+saveCont(co, clofun20, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2317928_25, v_2317929_25);
 return;
 } else {
-Obj v_2318312_25 = PRIM_ISCONS(v_2317830_25);
-if (True == v_2318312_25) {
-Obj v_2318313_25 = PRIM_CAR(v_2317830_25);
-Obj v_x = v_2318313_25;
-Obj v_2318314_25 = PRIM_CDR(v_2317830_25);
-Obj v_y = v_2318314_25;
-Obj v_2318315_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, Nil);
-Obj v_2318316_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318315_25);
+Obj v_2318427_25 = PRIM_ISCONS(v_2317928_25);
+if (True == v_2318427_25) {
+Obj v_2318428_25 = PRIM_CAR(v_2317928_25);
+Obj v_x = v_2318428_25;
+Obj v_2318429_25 = PRIM_CDR(v_2317928_25);
+Obj v_y = v_2318429_25;
+Obj v_2318430_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, Nil);
+Obj v_2318431_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2318430_25);
 R[1] = v_y;
-R[2] = v_2317831_25;
-R[3] = v_2318316_25;
-saveCont(co, clofun17, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_x, v_2317831_25);
+R[2] = v_2317929_25;
+R[3] = v_2318431_25;
+saveCont(co, clofun20, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_x, v_2317929_25);
 return;
 } else {
-Obj v_2318322_25 = makeCons(co->gc, v_2317830_25, Nil);
-Obj v_2318323_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318322_25);
-coraReturn(co, v_2318323_25);
+Obj v_2318437_25 = makeCons(co->gc, v_2317928_25, Nil);
+Obj v_2318438_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318437_25);
+coraReturn(co, v_2318438_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318309_25= co->res;
-Obj v_2317830_25 = R[1];
-Obj v_2318310_25 = makeCons(co->gc, v_2317830_25, Nil);
-Obj v_2318311_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318310_25);
-coraReturn(co, v_2318311_25);
+Obj v_2318424_25= co->res;
+Obj v_2317928_25 = R[1];
+Obj v_2318425_25 = makeCons(co->gc, v_2317928_25, Nil);
+Obj v_2318426_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318425_25);
+coraReturn(co, v_2318426_25);
 return;
 }
 case 2:
 {
-Obj v_2318318_25= co->res;
-Obj v_2318317_25 = R[1];
-Obj v_2318316_25 = R[2];
-Obj v_2318319_25 = makeCons(co->gc, v_2318318_25, Nil);
-Obj v_2318320_25 = makeCons(co->gc, v_2318317_25, v_2318319_25);
-Obj v_2318321_25 = makeCons(co->gc, v_2318316_25, v_2318320_25);
-coraReturn(co, v_2318321_25);
+Obj v_2318433_25= co->res;
+Obj v_2318432_25 = R[1];
+Obj v_2318431_25 = R[2];
+Obj v_2318434_25 = makeCons(co->gc, v_2318433_25, Nil);
+Obj v_2318435_25 = makeCons(co->gc, v_2318432_25, v_2318434_25);
+Obj v_2318436_25 = makeCons(co->gc, v_2318431_25, v_2318435_25);
+coraReturn(co, v_2318436_25);
 return;
 }
 case 3:
 {
-Obj v_2318317_25= co->res;
+Obj v_2318432_25= co->res;
 Obj v_y = R[1];
-Obj v_2317831_25 = R[2];
-Obj v_2318316_25 = R[3];
-R[1] = v_2318317_25;
-R[2] = v_2318316_25;
-saveCont(co, clofun17, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_y, v_2317831_25);
+Obj v_2317929_25 = R[2];
+Obj v_2318431_25 = R[3];
+R[1] = v_2318432_25;
+R[2] = v_2318431_25;
+saveCont(co, clofun20, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_y, v_2317929_25);
 return;
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
 Obj v_env = R[2];
 Obj v_used = R[3];
-Obj v_2317997_25 = makeNative(co->gc, 2, clofun15, 1, 2, v_used, v_x);
+Obj v_2318098_25 = makeNative(co->gc, 2, clofun18, 1, 2, v_used, v_x);
 R[1] = v_x;
 R[2] = v_env;
-R[3] = v_2317997_25;
-saveCont(co, clofun16, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_used);
+R[3] = v_2318098_25;
+saveCont(co, clofun19, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_used);
 return;
 }
 case 1:
 {
-Obj v_2318305_25= co->res;
-Obj v_2317997_25 = R[1];
-Obj v_2318306_25 = primNot(v_2318305_25);
-if (True == v_2318306_25) {
+Obj v_2318420_25= co->res;
+Obj v_2318098_25 = R[1];
+Obj v_2318421_25 = primNot(v_2318420_25);
+if (True == v_2318421_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317997_25, True);
+coraCall1(co, v_2318098_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2317997_25, False);
+coraCall1(co, v_2318098_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318304_25= co->res;
-Obj v_2317997_25 = R[1];
-R[1] = v_2317997_25;
-saveCont(co, clofun16, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2318304_25);
+Obj v_2318419_25= co->res;
+Obj v_2318098_25 = R[1];
+R[1] = v_2318098_25;
+saveCont(co, clofun19, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318419_25);
 return;
 }
 case 3:
 {
-Obj v_2318303_25= co->res;
+Obj v_2318418_25= co->res;
 Obj v_x = R[1];
 Obj v_env = R[2];
-Obj v_2317997_25 = R[3];
-if (True == v_2318303_25) {
+Obj v_2318098_25 = R[3];
+if (True == v_2318418_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2317997_25, True);
+coraCall1(co, v_2318098_25, True);
 return;
 } else {
-R[1] = v_2317997_25;
-saveCont(co, clofun16, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, v_env);
+R[1] = v_2318098_25;
+saveCont(co, clofun19, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_x, v_env);
 return;
 }
 }
 case 4:
 {
-Obj v_2318302_25= co->res;
+Obj v_2318417_25= co->res;
 Obj v_x = R[1];
 Obj v_env = R[2];
-Obj v_2317997_25 = R[3];
+Obj v_2318098_25 = R[3];
 R[1] = v_x;
 R[2] = v_env;
-R[3] = v_2317997_25;
-saveCont(co, clofun16, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2318302_25);
+R[3] = v_2318098_25;
+saveCont(co, clofun19, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318417_25);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317998_25 = R[1];
-if (True == v_2317998_25) {
-Obj v_2318298_25 = primGenSym(co);
-coraReturn(co, v_2318298_25);
+Obj v_2318099_25 = R[1];
+if (True == v_2318099_25) {
+Obj v_2318413_25 = primGenSym(co);
+coraReturn(co, v_2318413_25);
 return;
 } else {
-saveCont(co, clofun15, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 0));
+saveCont(co, clofun18, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v_2318299_25= co->res;
-Obj v_2318300_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318299_25);
-Obj v_2318301_25 = primSet(co, closureRef(R[0], 0), v_2318300_25);
+Obj v_2318414_25= co->res;
+Obj v_2318415_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318414_25);
+Obj v_2318416_25 = primSet(co, closureRef(R[0], 0), v_2318415_25);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317825_25 = R[1];
-Obj v_2317826_25 = R[2];
-Obj v_2317827_25 = R[3];
-Obj v_2317828_25 = makeNative(co->gc, 1, clofun13, 0, 3, v_2317825_25, v_2317826_25, v_2317827_25);
-Obj v_2318295_25 = PRIM_EQ(Nil, v_2317825_25);
-if (True == v_2318295_25) {
-Obj v_2318296_25 = PRIM_EQ(Nil, v_2317826_25);
-if (True == v_2318296_25) {
-coraReturn(co, v_2317827_25);
+Obj v_2317923_25 = R[1];
+Obj v_2317924_25 = R[2];
+Obj v_2317925_25 = R[3];
+Obj v_2317926_25 = makeNative(co->gc, 1, clofun16, 0, 3, v_2317923_25, v_2317924_25, v_2317925_25);
+Obj v_2318410_25 = PRIM_EQ(Nil, v_2317923_25);
+if (True == v_2318410_25) {
+Obj v_2318411_25 = PRIM_EQ(Nil, v_2317924_25);
+if (True == v_2318411_25) {
+coraReturn(co, v_2317925_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317828_25);
+coraCall0(co, v_2317926_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317828_25);
+coraCall0(co, v_2317926_25);
 return;
 }
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317829_25 = makeNative(co->gc, 1, clofun12, 0, 0);
-Obj v_2318287_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318287_25) {
-Obj v_2318288_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318288_25;
-Obj v_2318289_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_xs = v_2318289_25;
-Obj v_2318290_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318290_25) {
-Obj v_2318291_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_y = v_2318291_25;
-Obj v_2318292_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_ys = v_2318292_25;
-Obj v_2318293_25 = makeCons(co->gc, v_x, v_y);
-Obj v_2318294_25 = makeCons(co->gc, v_2318293_25, closureRef(R[0], 2));
+Obj v_2317927_25 = makeNative(co->gc, 1, clofun15, 0, 0);
+Obj v_2318402_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318402_25) {
+Obj v_2318403_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318403_25;
+Obj v_2318404_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_xs = v_2318404_25;
+Obj v_2318405_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318405_25) {
+Obj v_2318406_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_y = v_2318406_25;
+Obj v_2318407_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_ys = v_2318407_25;
+Obj v_2318408_25 = makeCons(co->gc, v_x, v_y);
+Obj v_2318409_25 = makeCons(co->gc, v_2318408_25, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 90)), v_xs, v_ys, v_2318294_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 89)), v_xs, v_ys, v_2318409_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317829_25);
+coraCall0(co, v_2317927_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317829_25);
+coraCall0(co, v_2317927_25);
 return;
 }
 }
 }
 }
 
-static void clofun12(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 
-static void clofun11(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318274_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, Nil);
-Obj v_2318275_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318274_25);
-Obj v_2318276_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318275_25);
-Obj v_2318277_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318276_25);
-Obj v_2318278_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318277_25);
-Obj v_2318279_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318278_25);
-Obj v_2318280_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318279_25);
-Obj v_2318281_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318280_25);
-Obj v_2318282_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318281_25);
-Obj v_2318283_25 = makeCons(co->gc, getBinding(co, packageID, 100).name, v_2318282_25);
+Obj v_2318389_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, Nil);
+Obj v_2318390_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318389_25);
+Obj v_2318391_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318390_25);
+Obj v_2318392_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318391_25);
+Obj v_2318393_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318392_25);
+Obj v_2318394_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318393_25);
+Obj v_2318395_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318394_25);
+Obj v_2318396_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318395_25);
+Obj v_2318397_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318396_25);
+Obj v_2318398_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318397_25);
 R[1] = v_x;
-saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v_x, v_2318283_25);
+saveCont(co, clofun14, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318398_25);
 return;
 }
 case 1:
 {
-Obj v_2318284_25= co->res;
+Obj v_2318399_25= co->res;
 Obj v_x = R[1];
-if (True == v_2318284_25) {
-Obj v_2318285_25 = primGenSym(co);
-coraReturn(co, v_2318285_25);
+if (True == v_2318399_25) {
+Obj v_2318400_25 = primGenSym(co);
+coraReturn(co, v_2318400_25);
 return;
 } else {
 coraReturn(co, v_x);
@@ -8881,22 +8907,109 @@ return;
 }
 }
 
+static void clofun13(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_2317918_25 = R[1];
+Obj v_2317919_25 = R[2];
+Obj v_2317920_25 = R[3];
+Obj v_2317921_25 = makeNative(co->gc, 3, clofun12, 0, 3, v_2317918_25, v_2317919_25, v_2317920_25);
+Obj v_2318386_25 = PRIM_EQ(Nil, v_2317918_25);
+if (True == v_2318386_25) {
+Obj v_2318387_25 = PRIM_EQ(Nil, v_2317919_25);
+if (True == v_2318387_25) {
+coraReturn(co, v_2317920_25);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317921_25);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317921_25);
+return;
+}
+}
+}
+}
+
+static void clofun12(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_2317922_25 = makeNative(co->gc, 1, clofun11, 0, 0);
+Obj v_2318375_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318375_25) {
+Obj v_2318376_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318376_25;
+Obj v_2318377_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_xs = v_2318377_25;
+Obj v_2318378_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318378_25) {
+Obj v_2318379_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_y = v_2318379_25;
+Obj v_2318380_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_ys = v_2318380_25;
+R[1] = v_y;
+R[2] = v_x;
+saveCont(co, clofun12, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 103)), v_xs, v_ys, closureRef(R[0], 2));
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317922_25);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v_2317922_25);
+return;
+}
+}
+case 1:
+{
+Obj v_2318381_25= co->res;
+Obj v_y = R[1];
+Obj v_x = R[2];
+Obj v_2318382_25 = makeCons(co->gc, v_2318381_25, Nil);
+Obj v_2318383_25 = makeCons(co->gc, v_y, v_2318382_25);
+Obj v_2318384_25 = makeCons(co->gc, v_x, v_2318383_25);
+Obj v_2318385_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318384_25);
+coraReturn(co, v_2318385_25);
+return;
+}
+}
+}
+
+static void clofun11(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+return;
+}
+}
+}
+
 static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317821_25 = R[1];
-Obj v_2317822_25 = R[2];
-Obj v_2318269_25 = PRIM_EQ(MAKE_NUMBER(0), v_2317821_25);
-if (True == v_2318269_25) {
-coraReturn(co, v_2317822_25);
+Obj v_2317914_25 = R[1];
+Obj v_2317915_25 = R[2];
+Obj v_2318370_25 = PRIM_EQ(MAKE_NUMBER(0), v_2317914_25);
+if (True == v_2318370_25) {
+coraReturn(co, v_2317915_25);
 return;
 } else {
-Obj v_2318270_25 = PRIM_SUB(v_2317821_25, MAKE_NUMBER(1));
-Obj v_2318271_25 = primGenSym(co);
-Obj v_2318272_25 = makeCons(co->gc, v_2318271_25, v_2317822_25);
+Obj v_2318371_25 = PRIM_SUB(v_2317914_25, MAKE_NUMBER(1));
+Obj v_2318372_25 = primGenSym(co);
+Obj v_2318373_25 = makeCons(co->gc, v_2318372_25, v_2317915_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2318270_25, v_2318272_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318371_25, v_2318373_25);
 return;
 }
 }
@@ -8909,29 +9022,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, globalRef(co, getBinding(co, packageID, 127)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_x, globalRef(co, getBinding(co, packageID, 128)));
 return;
 }
 case 1:
 {
-Obj v_2318267_25= co->res;
+Obj v_2318368_25= co->res;
 Obj v_find = R[1];
-if (True == v_2318267_25) {
+if (True == v_2318368_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2318266_25= co->res;
-Obj v_find = v_2318266_25;
+Obj v_2318367_25= co->res;
+Obj v_find = v_2318367_25;
 R[1] = v_find;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_find);
 return;
 }
 }
@@ -8943,29 +9056,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, globalRef(co, getBinding(co, packageID, 127)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_x, globalRef(co, getBinding(co, packageID, 128)));
 return;
 }
 case 1:
 {
-Obj v_2318264_25= co->res;
+Obj v_2318365_25= co->res;
 Obj v_find = R[1];
-if (True == v_2318264_25) {
+if (True == v_2318365_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v_find);
 return;
 }
 }
 case 2:
 {
-Obj v_2318263_25= co->res;
-Obj v_find = v_2318263_25;
+Obj v_2318364_25= co->res;
+Obj v_find = v_2318364_25;
 R[1] = v_find;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_find);
 return;
 }
 }
@@ -8977,21 +9090,21 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, globalRef(co, getBinding(co, packageID, 127)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_x, globalRef(co, getBinding(co, packageID, 128)));
 return;
 }
 case 1:
 {
-Obj v_2318260_25= co->res;
-Obj v_2318261_25 = primNot(v_2318260_25);
-coraReturn(co, v_2318261_25);
+Obj v_2318361_25= co->res;
+Obj v_2318362_25 = primNot(v_2318361_25);
+coraReturn(co, v_2318362_25);
 return;
 }
 case 2:
 {
-Obj v_2318259_25= co->res;
+Obj v_2318360_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_2318259_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318360_25);
 return;
 }
 }
@@ -9001,40 +9114,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317817_25 = R[1];
-Obj v_2317818_25 = R[2];
-Obj v_2318183_25 = PRIM_EQ(Nil, v_2317818_25);
-if (True == v_2318183_25) {
+Obj v_2317910_25 = R[1];
+Obj v_2317911_25 = R[2];
+Obj v_2318284_25 = PRIM_EQ(Nil, v_2317911_25);
+if (True == v_2318284_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2318184_25 = PRIM_ISCONS(v_2317818_25);
-if (True == v_2318184_25) {
-Obj v_2318185_25 = PRIM_CAR(v_2317818_25);
-Obj v_hd = v_2318185_25;
-Obj v_2318186_25 = PRIM_CDR(v_2317818_25);
-Obj v_tl = v_2318186_25;
-R[1] = v_2317817_25;
+Obj v_2318285_25 = PRIM_ISCONS(v_2317911_25);
+if (True == v_2318285_25) {
+Obj v_2318286_25 = PRIM_CAR(v_2317911_25);
+Obj v_hd = v_2318286_25;
+Obj v_2318287_25 = PRIM_CDR(v_2317911_25);
+Obj v_tl = v_2318287_25;
+R[1] = v_2317910_25;
 R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317817_25, v_hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2317910_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318187_25= co->res;
-Obj v_2317817_25 = R[1];
+Obj v_2318288_25= co->res;
+Obj v_2317910_25 = R[1];
 Obj v_tl = R[2];
-Obj v_2318188_25 = PRIM_LT(v_2318187_25, MAKE_NUMBER(0));
-if (True == v_2318188_25) {
+Obj v_2318289_25 = PRIM_LT(v_2318288_25, MAKE_NUMBER(0));
+if (True == v_2318289_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_2317817_25, v_tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317910_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -9051,7 +9164,7 @@ case 0:
 Obj v_x = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 130)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -9061,32 +9174,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317811_25 = R[1];
-Obj v_2317812_25 = R[2];
-Obj v_2317813_25 = R[3];
-Obj v_2318172_25 = PRIM_EQ(Nil, v_2317813_25);
-if (True == v_2318172_25) {
+Obj v_2317904_25 = R[1];
+Obj v_2317905_25 = R[2];
+Obj v_2317906_25 = R[3];
+Obj v_2318273_25 = PRIM_EQ(Nil, v_2317906_25);
+if (True == v_2318273_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2317815_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2317813_25, v_2317811_25, v_2317812_25);
-Obj v_2318177_25 = PRIM_ISCONS(v_2317813_25);
-if (True == v_2318177_25) {
-Obj v_2318178_25 = PRIM_CAR(v_2317813_25);
-Obj v_a = v_2318178_25;
-Obj v_2318179_25 = PRIM_CDR(v_2317813_25);
-Obj v_2318180_25 = PRIM_EQ(v_2317812_25, v_a);
-if (True == v_2318180_25) {
-coraReturn(co, v_2317811_25);
+Obj v_2317908_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2317906_25, v_2317904_25, v_2317905_25);
+Obj v_2318278_25 = PRIM_ISCONS(v_2317906_25);
+if (True == v_2318278_25) {
+Obj v_2318279_25 = PRIM_CAR(v_2317906_25);
+Obj v_a = v_2318279_25;
+Obj v_2318280_25 = PRIM_CDR(v_2317906_25);
+Obj v_2318281_25 = PRIM_EQ(v_2317905_25, v_a);
+if (True == v_2318281_25) {
+coraReturn(co, v_2317904_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317815_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317815_25);
+coraCall0(co, v_2317908_25);
 return;
 }
 }
@@ -9098,18 +9211,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318173_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318173_25) {
-Obj v_2318174_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318175_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_b = v_2318175_25;
-Obj v_2318176_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2318274_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318274_25) {
+Obj v_2318275_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318276_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2318276_25;
+Obj v_2318277_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 130)), v_2318176_25, closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2318277_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -9120,39 +9233,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317806_25 = R[1];
-Obj v_2317807_25 = R[2];
-Obj v_2317808_25 = R[3];
-Obj v_2318166_25 = PRIM_EQ(Nil, v_2317808_25);
-if (True == v_2318166_25) {
-coraReturn(co, v_2317807_25);
+Obj v_2317899_25 = R[1];
+Obj v_2317900_25 = R[2];
+Obj v_2317901_25 = R[3];
+Obj v_2318267_25 = PRIM_EQ(Nil, v_2317901_25);
+if (True == v_2318267_25) {
+coraReturn(co, v_2317900_25);
 return;
 } else {
-Obj v_2318167_25 = PRIM_ISCONS(v_2317808_25);
-if (True == v_2318167_25) {
-Obj v_2318168_25 = PRIM_CAR(v_2317808_25);
-Obj v_x = v_2318168_25;
-Obj v_2318169_25 = PRIM_CDR(v_2317808_25);
-Obj v_y = v_2318169_25;
-R[1] = v_2317806_25;
+Obj v_2318268_25 = PRIM_ISCONS(v_2317901_25);
+if (True == v_2318268_25) {
+Obj v_2318269_25 = PRIM_CAR(v_2317901_25);
+Obj v_x = v_2318269_25;
+Obj v_2318270_25 = PRIM_CDR(v_2317901_25);
+Obj v_y = v_2318270_25;
+R[1] = v_2317899_25;
 R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v_2317806_25, v_2317807_25, v_x);
+coraCall2(co, v_2317899_25, v_2317900_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318170_25= co->res;
-Obj v_2317806_25 = R[1];
+Obj v_2318271_25= co->res;
+Obj v_2317899_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2317806_25, v_2318170_25, v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), v_2317899_25, v_2318271_25, v_y);
 return;
 }
 }
@@ -9162,44 +9275,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317801_25 = R[1];
-Obj v_2317802_25 = R[2];
-Obj v_2318151_25 = PRIM_EQ(Nil, v_2317802_25);
-if (True == v_2318151_25) {
+Obj v_2317894_25 = R[1];
+Obj v_2317895_25 = R[2];
+Obj v_2318252_25 = PRIM_EQ(Nil, v_2317895_25);
+if (True == v_2318252_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317804_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2317802_25, v_2317801_25);
-Obj v_2318155_25 = PRIM_ISCONS(v_2317802_25);
-if (True == v_2318155_25) {
-Obj v_2318156_25 = PRIM_CAR(v_2317802_25);
-Obj v_2318157_25 = PRIM_ISCONS(v_2318156_25);
-if (True == v_2318157_25) {
-Obj v_2318158_25 = PRIM_CAR(v_2317802_25);
-Obj v_2318159_25 = PRIM_CAR(v_2318158_25);
-Obj v_x = v_2318159_25;
-Obj v_2318160_25 = PRIM_CAR(v_2317802_25);
-Obj v_2318161_25 = PRIM_CDR(v_2318160_25);
-Obj v_y = v_2318161_25;
-Obj v_2318162_25 = PRIM_CDR(v_2317802_25);
-Obj v_2318163_25 = PRIM_EQ(v_2317801_25, v_x);
-if (True == v_2318163_25) {
-Obj v_2318164_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2318164_25);
+Obj v_2317897_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2317895_25, v_2317894_25);
+Obj v_2318256_25 = PRIM_ISCONS(v_2317895_25);
+if (True == v_2318256_25) {
+Obj v_2318257_25 = PRIM_CAR(v_2317895_25);
+Obj v_2318258_25 = PRIM_ISCONS(v_2318257_25);
+if (True == v_2318258_25) {
+Obj v_2318259_25 = PRIM_CAR(v_2317895_25);
+Obj v_2318260_25 = PRIM_CAR(v_2318259_25);
+Obj v_x = v_2318260_25;
+Obj v_2318261_25 = PRIM_CAR(v_2317895_25);
+Obj v_2318262_25 = PRIM_CDR(v_2318261_25);
+Obj v_y = v_2318262_25;
+Obj v_2318263_25 = PRIM_CDR(v_2317895_25);
+Obj v_2318264_25 = PRIM_EQ(v_2317894_25, v_x);
+if (True == v_2318264_25) {
+Obj v_2318265_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2318265_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317804_25);
+coraCall0(co, v_2317897_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317804_25);
+coraCall0(co, v_2317897_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317804_25);
+coraCall0(co, v_2317897_25);
 return;
 }
 }
@@ -9211,17 +9324,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318152_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318152_25) {
-Obj v_2318153_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318154_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318154_25;
+Obj v_2318253_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318253_25) {
+Obj v_2318254_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318255_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318255_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 1), v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index a937c56..8f011c1 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -51,6 +51,10 @@
 	0 res => res
 	n res => (temp-list (- n 1) (cons (gensym) res)))
 
+  (func bind-args
+	[] [] body => body
+	[x . xs] [y . ys] body => ['let x y (bind-args xs ys body)])
+
   ;; The later passes give these names a meaning, ['return x] is not a call of return.
   (defun local-name (x)
     (if (elem? x ['return 'call 'tailcall 'continuation '%continuation '%closure
@@ -113,9 +117,12 @@
 					       ((= required provided)  [['%builtin op] . (map (parse env used globals) args)])
 					       ((> required provided)
 						;; rewrite partial apply of primitives
-						;; (+ x) => (lambda (tmp) (+ x tmp))
+						;; (+ x) => (let v x (lambda (tmp) (+ v tmp)))
 						(let tmp (temp-list (- required provided) ())
-						     (parse env used globals ['lambda tmp (append [op . args] tmp)])))
+						     vars (temp-list provided ())
+						     (parse env used globals
+							    (bind-args vars args
+								       ['lambda tmp (append [op . vars] tmp)]))))
 					       (true (error "primitive call mismatch"))))
 	where (and (builtin? op) (null? (assq op env)))
 	env used globals ls => (map (parse env used globals) ls))
-- 
2.43.0


From a041b51e99e5bfad1e3867fd411fae663872f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 20/53] fix: returning from try after a tail call frees every
 stack segment above the frame

---
 src/runtime.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 82351bc..9e365a4 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -41,15 +41,19 @@ stackAllocSlowPath(Cora *co, int n) {
 
 void
 coraReturnSlowPath(Cora *co) {
-	assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
-	free(co->stk.begin);
-	vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
-	co->stk.data.v.len--;
+	// The frame to return to may be several segments below: a tail call can leave
+	// a segment, without any live frame, beneath the one that try has allocated.
+	do {
+		int last = vecLen(&co->stk.data) - 1;
+		assert(last > 0);
+		assert(vecGet(&co->stk.data, last) == co->stk.begin);
+		free(co->stk.begin);
+		vecSet(&co->stk.data, last, NULL);
+		co->stk.data.v.len--;
 
-	co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
-	co->stk.end = co->stk.begin + INIT_STACK_SIZE;
-
-	assert(co->ctx.sp >= co->stk.begin && co->ctx.sp < co->stk.end);
+		co->stk.begin = vecGet(&co->stk.data, last - 1);
+		co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+	} while (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end);
 }
 
 static Cora *
@@ -844,6 +848,9 @@ builtinThrow(Cora *co, int label, Obj *R) {
 	Frame beforeTry = vecGet(&co->callstack, vecLen(&co->callstack) - 1);
 	co->ctx.bp = beforeTry.bp;
 	co->ctx.sp = beforeTry.sp;
+	if (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end) {
+		coraReturnSlowPath(co);
+	}
 	coraCall2(co, handler, v, clo);
 }
 
-- 
2.43.0


From 235f8e1a0d3f014382c9e3b086b21cc2ac0e5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:51 +0000
Subject: [PATCH 21/53] fix: match evaluates its scrutinee once, apart from the
 pattern variables; and/or keep the effects of their operands

---
 init.c    | 3691 +++++++++++++++++---------------
 init.cora |   37 +-
 lib/toc.c | 6156 ++++++++++++++++++++++++++---------------------------
 3 files changed, 5035 insertions(+), 4849 deletions(-)

diff --git a/init.c b/init.c
index 26800e0..a3fdaf2 100644
--- a/init.c
+++ b/init.c
@@ -2,6 +2,12 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun101(struct Cora* co, int label, Obj *R);
+static void clofun100(struct Cora* co, int label, Obj *R);
+static void clofun99(struct Cora* co, int label, Obj *R);
+static void clofun98(struct Cora* co, int label, Obj *R);
+static void clofun97(struct Cora* co, int label, Obj *R);
+static void clofun96(struct Cora* co, int label, Obj *R);
 static void clofun95(struct Cora* co, int label, Obj *R);
 static void clofun94(struct Cora* co, int label, Obj *R);
 static void clofun93(struct Cora* co, int label, Obj *R);
@@ -102,7 +108,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 162);
+Binding *__symbolTable = malloc(sizeof(Binding) * 163);
 __symbolTable[0] = bindSymbol(co, intern("cora/init#assq"));
 __symbolTable[1] = bindSymbol(co, intern("cora/init#append"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#filter"));
@@ -212,450 +218,452 @@ __symbolTable[105] = bindSymbol(co, intern("=>"));
 __symbolTable[106] = bindSymbol(co, intern("cora/init#extract-rules1"));
 __symbolTable[107] = bindSymbol(co, intern("match"));
 __symbolTable[108] = bindSymbol(co, intern("cora/init#rewrite-match"));
-__symbolTable[109] = bindSymbol(co, intern("cora/init#match-helper"));
-__symbolTable[110] = bindSymbol(co, intern("where"));
-__symbolTable[111] = bindSymbol(co, intern("cora/init#extract-rule-action"));
-__symbolTable[112] = bindSymbol(co, intern("str"));
-__symbolTable[113] = bindSymbol(co, intern("="));
-__symbolTable[114] = bindSymbol(co, intern("cdr"));
-__symbolTable[115] = bindSymbol(co, intern("car"));
-__symbolTable[116] = bindSymbol(co, intern("cons?"));
-__symbolTable[117] = bindSymbol(co, intern("cora/init#match1"));
-__symbolTable[118] = bindSymbol(co, intern("cora/init#match-cons-expander"));
-__symbolTable[119] = bindSymbol(co, intern("list-rest"));
-__symbolTable[120] = bindSymbol(co, intern("cora/init#rcons1"));
-__symbolTable[121] = bindSymbol(co, intern("boolean?"));
-__symbolTable[122] = bindSymbol(co, intern("and"));
-__symbolTable[123] = bindSymbol(co, intern("cora/init#rewrite-and"));
-__symbolTable[124] = bindSymbol(co, intern("or"));
-__symbolTable[125] = bindSymbol(co, intern("cora/init#rewrite-or"));
-__symbolTable[126] = bindSymbol(co, intern("if"));
-__symbolTable[127] = bindSymbol(co, intern("error"));
-__symbolTable[128] = bindSymbol(co, intern("cond"));
-__symbolTable[129] = bindSymbol(co, intern("let"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#rewrite-let"));
-__symbolTable[131] = bindSymbol(co, intern("atom?"));
-__symbolTable[132] = bindSymbol(co, intern("elem?"));
-__symbolTable[133] = bindSymbol(co, intern("def"));
-__symbolTable[134] = bindSymbol(co, intern("defun"));
-__symbolTable[135] = bindSymbol(co, intern("list"));
-__symbolTable[136] = bindSymbol(co, intern("defmacro"));
-__symbolTable[137] = bindSymbol(co, intern("defmacro-macro"));
-__symbolTable[138] = bindSymbol(co, intern("macroexpand"));
-__symbolTable[139] = bindSymbol(co, intern("quote"));
-__symbolTable[140] = bindSymbol(co, intern("lambda"));
-__symbolTable[141] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
-__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand1"));
-__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
-__symbolTable[144] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
-__symbolTable[145] = bindSymbol(co, intern("*protect-symbol*"));
-__symbolTable[146] = bindSymbol(co, intern("*macros*"));
-__symbolTable[147] = bindSymbol(co, intern("map"));
-__symbolTable[148] = bindSymbol(co, intern("map-h"));
-__symbolTable[149] = bindSymbol(co, intern("reverse"));
-__symbolTable[150] = bindSymbol(co, intern("cora/init#reverse-h"));
-__symbolTable[151] = bindSymbol(co, intern("pair?"));
-__symbolTable[152] = bindSymbol(co, intern("cons"));
-__symbolTable[153] = bindSymbol(co, intern("rcons"));
-__symbolTable[154] = bindSymbol(co, intern("cdddr"));
-__symbolTable[155] = bindSymbol(co, intern("cadddr"));
-__symbolTable[156] = bindSymbol(co, intern("caddr"));
-__symbolTable[157] = bindSymbol(co, intern("cddr"));
-__symbolTable[158] = bindSymbol(co, intern("cdar"));
-__symbolTable[159] = bindSymbol(co, intern("caar"));
-__symbolTable[160] = bindSymbol(co, intern("cadr"));
-__symbolTable[161] = bindSymbol(co, intern("null?"));
+__symbolTable[109] = bindSymbol(co, intern("cora/init#bind-scrutinee"));
+__symbolTable[110] = bindSymbol(co, intern("cora/init#match-helper"));
+__symbolTable[111] = bindSymbol(co, intern("where"));
+__symbolTable[112] = bindSymbol(co, intern("cora/init#extract-rule-action"));
+__symbolTable[113] = bindSymbol(co, intern("str"));
+__symbolTable[114] = bindSymbol(co, intern("="));
+__symbolTable[115] = bindSymbol(co, intern("cdr"));
+__symbolTable[116] = bindSymbol(co, intern("car"));
+__symbolTable[117] = bindSymbol(co, intern("cons?"));
+__symbolTable[118] = bindSymbol(co, intern("cora/init#match1"));
+__symbolTable[119] = bindSymbol(co, intern("cora/init#match-cons-expander"));
+__symbolTable[120] = bindSymbol(co, intern("list-rest"));
+__symbolTable[121] = bindSymbol(co, intern("cora/init#rcons1"));
+__symbolTable[122] = bindSymbol(co, intern("boolean?"));
+__symbolTable[123] = bindSymbol(co, intern("and"));
+__symbolTable[124] = bindSymbol(co, intern("cora/init#rewrite-and"));
+__symbolTable[125] = bindSymbol(co, intern("or"));
+__symbolTable[126] = bindSymbol(co, intern("cora/init#rewrite-or"));
+__symbolTable[127] = bindSymbol(co, intern("if"));
+__symbolTable[128] = bindSymbol(co, intern("error"));
+__symbolTable[129] = bindSymbol(co, intern("cond"));
+__symbolTable[130] = bindSymbol(co, intern("let"));
+__symbolTable[131] = bindSymbol(co, intern("cora/init#rewrite-let"));
+__symbolTable[132] = bindSymbol(co, intern("atom?"));
+__symbolTable[133] = bindSymbol(co, intern("elem?"));
+__symbolTable[134] = bindSymbol(co, intern("def"));
+__symbolTable[135] = bindSymbol(co, intern("defun"));
+__symbolTable[136] = bindSymbol(co, intern("list"));
+__symbolTable[137] = bindSymbol(co, intern("defmacro"));
+__symbolTable[138] = bindSymbol(co, intern("defmacro-macro"));
+__symbolTable[139] = bindSymbol(co, intern("macroexpand"));
+__symbolTable[140] = bindSymbol(co, intern("quote"));
+__symbolTable[141] = bindSymbol(co, intern("lambda"));
+__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
+__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1"));
+__symbolTable[144] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
+__symbolTable[145] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
+__symbolTable[146] = bindSymbol(co, intern("*protect-symbol*"));
+__symbolTable[147] = bindSymbol(co, intern("*macros*"));
+__symbolTable[148] = bindSymbol(co, intern("map"));
+__symbolTable[149] = bindSymbol(co, intern("map-h"));
+__symbolTable[150] = bindSymbol(co, intern("reverse"));
+__symbolTable[151] = bindSymbol(co, intern("cora/init#reverse-h"));
+__symbolTable[152] = bindSymbol(co, intern("pair?"));
+__symbolTable[153] = bindSymbol(co, intern("cons"));
+__symbolTable[154] = bindSymbol(co, intern("rcons"));
+__symbolTable[155] = bindSymbol(co, intern("cdddr"));
+__symbolTable[156] = bindSymbol(co, intern("cadddr"));
+__symbolTable[157] = bindSymbol(co, intern("caddr"));
+__symbolTable[158] = bindSymbol(co, intern("cddr"));
+__symbolTable[159] = bindSymbol(co, intern("cdar"));
+__symbolTable[160] = bindSymbol(co, intern("caar"));
+__symbolTable[161] = bindSymbol(co, intern("cadr"));
+__symbolTable[162] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun95;
+co->ctx.fn = clofun101;
 co->ctx.label = 0;
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313762_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v_2313765_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v_2313768_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v_2313771_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v_2313774_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v_2313778_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v_2313783_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v_2313787_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2313795_25 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2313797_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2313802_25 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
-saveCont(co, clofun95, 15, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
+Obj v_2313775_25 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v_2313778_25 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v_2313781_25 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v_2313784_25 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v_2313787_25 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v_2313791_25 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v_2313796_25 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v_2313800_25 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2313808_25 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2313810_25 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2313815_25 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+saveCont(co, clofun101, 15, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj v_2314282_25= co->res;
-Obj v_2314288_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v_2314300_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v_2314301_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2314302_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314301_25);
-Obj v_2314303_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314302_25);
-Obj v_2314304_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2314305_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314304_25);
-Obj v_2314306_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2314305_25);
-Obj v_2314307_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2314308_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314307_25);
-Obj v_2314309_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314308_25);
-Obj v_2314310_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2314311_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314310_25);
-Obj v_2314312_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2314311_25);
-Obj v_2314313_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2314314_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314313_25);
-Obj v_2314315_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2314314_25);
-Obj v_2314316_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2314317_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314316_25);
-Obj v_2314318_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2314317_25);
-Obj v_2314319_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2314320_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314319_25);
-Obj v_2314321_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2314320_25);
-Obj v_2314322_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2314323_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314322_25);
-Obj v_2314324_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2314323_25);
-Obj v_2314325_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2314326_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314325_25);
-Obj v_2314327_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2314326_25);
-Obj v_2314328_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2314329_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314328_25);
-Obj v_2314330_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2314329_25);
-Obj v_2314331_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2314332_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314331_25);
-Obj v_2314333_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2314332_25);
-Obj v_2314334_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2314335_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314334_25);
-Obj v_2314336_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2314335_25);
-Obj v_2314337_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2314338_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2314337_25);
-Obj v_2314339_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2314338_25);
-Obj v_2314340_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2314341_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314340_25);
-Obj v_2314342_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2314341_25);
-Obj v_2314343_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2314344_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314343_25);
-Obj v_2314345_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2314344_25);
-Obj v_2314346_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2314347_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314346_25);
-Obj v_2314348_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2314347_25);
-Obj v_2314349_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2314350_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314349_25);
-Obj v_2314351_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2314350_25);
-Obj v_2314352_25 = makeCons(co->gc, v_2314351_25, Nil);
-Obj v_2314353_25 = makeCons(co->gc, v_2314348_25, v_2314352_25);
-Obj v_2314354_25 = makeCons(co->gc, v_2314345_25, v_2314353_25);
-Obj v_2314355_25 = makeCons(co->gc, v_2314342_25, v_2314354_25);
-Obj v_2314356_25 = makeCons(co->gc, v_2314339_25, v_2314355_25);
-Obj v_2314357_25 = makeCons(co->gc, v_2314336_25, v_2314356_25);
-Obj v_2314358_25 = makeCons(co->gc, v_2314333_25, v_2314357_25);
-Obj v_2314359_25 = makeCons(co->gc, v_2314330_25, v_2314358_25);
-Obj v_2314360_25 = makeCons(co->gc, v_2314327_25, v_2314359_25);
-Obj v_2314361_25 = makeCons(co->gc, v_2314324_25, v_2314360_25);
-Obj v_2314362_25 = makeCons(co->gc, v_2314321_25, v_2314361_25);
-Obj v_2314363_25 = makeCons(co->gc, v_2314318_25, v_2314362_25);
-Obj v_2314364_25 = makeCons(co->gc, v_2314315_25, v_2314363_25);
-Obj v_2314365_25 = makeCons(co->gc, v_2314312_25, v_2314364_25);
-Obj v_2314366_25 = makeCons(co->gc, v_2314309_25, v_2314365_25);
-Obj v_2314367_25 = makeCons(co->gc, v_2314306_25, v_2314366_25);
-Obj v_2314368_25 = makeCons(co->gc, v_2314303_25, v_2314367_25);
-Obj v_2314369_25 = primSet(co, getBinding(co, packageID, 69).name, v_2314368_25);
-Obj v_2314384_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v_2314388_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v_2314566_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v_2314567_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v_2314568_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314567_25);
-Obj v_2314569_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314568_25);
-Obj v_2314570_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314569_25);
-Obj v_2314571_25 = makeCons(co->gc, getBinding(co, packageID, 138).name, v_2314570_25);
-Obj v_2314572_25 = makeCons(co->gc, getBinding(co, packageID, 147).name, v_2314571_25);
-Obj v_2314573_25 = makeCons(co->gc, getBinding(co, packageID, 149).name, v_2314572_25);
-Obj v_2314574_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314573_25);
-Obj v_2314575_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314574_25);
-Obj v_2314576_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314575_25);
-Obj v_2314577_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314576_25);
-Obj v_2314578_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314577_25);
-Obj v_2314579_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314578_25);
-Obj v_2314580_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314579_25);
-Obj v_2314581_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314580_25);
-Obj v_2314582_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314581_25);
-Obj v_2314583_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314582_25);
-Obj v_2314584_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314583_25);
-Obj v_2314585_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314584_25);
-Obj v_2314586_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314585_25);
-Obj v_2314587_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314586_25);
-Obj v_2314588_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314587_25);
-Obj v_2314589_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314588_25);
-Obj v_2314590_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314589_25);
-Obj v_2314591_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314590_25);
-Obj v_2314592_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314591_25);
-Obj v_2314593_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314592_25);
-Obj v_2314594_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314593_25);
-Obj v_2314595_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2314594_25);
-Obj v_2314596_25 = makeCons(co->gc, getBinding(co, packageID, 131).name, v_2314595_25);
-Obj v_2314597_25 = makeCons(co->gc, getBinding(co, packageID, 151).name, v_2314596_25);
-Obj v_2314598_25 = makeCons(co->gc, getBinding(co, packageID, 154).name, v_2314597_25);
-Obj v_2314599_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314598_25);
-Obj v_2314600_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314599_25);
-Obj v_2314601_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314600_25);
-Obj v_2314602_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314601_25);
-Obj v_2314603_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314602_25);
-Obj v_2314604_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314603_25);
-Obj v_2314605_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314604_25);
-Obj v_2314606_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v_2314607_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v_2314608_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v_2314609_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v_2314610_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v_2314611_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v_2314612_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v_2314613_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v_2314614_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v_2314615_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v_2314616_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v_2314617_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v_2314618_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v_2314619_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v_2314620_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v_2314621_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v_2314622_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v_2314623_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v_2314624_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v_2314625_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v_2314626_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v_2314627_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v_2314628_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v_2314629_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v_2314630_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v_2314631_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v_2314632_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v_2314633_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v_2314634_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v_2314635_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v_2314636_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v_2314637_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v_2314638_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v_2314639_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v_2314640_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v_2314641_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v_2314642_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v_2314643_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v_2314644_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v_2314644_25);
+Obj v_2314304_25= co->res;
+Obj v_2314310_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun86, 2, 0));
+Obj v_2314322_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun87, 3, 0));
+Obj v_2314323_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2314324_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314323_25);
+Obj v_2314325_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314324_25);
+Obj v_2314326_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2314327_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314326_25);
+Obj v_2314328_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2314327_25);
+Obj v_2314329_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2314330_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314329_25);
+Obj v_2314331_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2314330_25);
+Obj v_2314332_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2314333_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314332_25);
+Obj v_2314334_25 = makeCons(co->gc, getBinding(co, packageID, 153).name, v_2314333_25);
+Obj v_2314335_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2314336_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314335_25);
+Obj v_2314337_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2314336_25);
+Obj v_2314338_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2314339_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314338_25);
+Obj v_2314340_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2314339_25);
+Obj v_2314341_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2314342_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314341_25);
+Obj v_2314343_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2314342_25);
+Obj v_2314344_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2314345_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314344_25);
+Obj v_2314346_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2314345_25);
+Obj v_2314347_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2314348_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314347_25);
+Obj v_2314349_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2314348_25);
+Obj v_2314350_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2314351_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314350_25);
+Obj v_2314352_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314351_25);
+Obj v_2314353_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2314354_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314353_25);
+Obj v_2314355_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2314354_25);
+Obj v_2314356_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2314357_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314356_25);
+Obj v_2314358_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2314357_25);
+Obj v_2314359_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2314360_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2314359_25);
+Obj v_2314361_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2314360_25);
+Obj v_2314362_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2314363_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314362_25);
+Obj v_2314364_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2314363_25);
+Obj v_2314365_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2314366_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314365_25);
+Obj v_2314367_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2314366_25);
+Obj v_2314368_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2314369_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314368_25);
+Obj v_2314370_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2314369_25);
+Obj v_2314371_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2314372_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314371_25);
+Obj v_2314373_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2314372_25);
+Obj v_2314374_25 = makeCons(co->gc, v_2314373_25, Nil);
+Obj v_2314375_25 = makeCons(co->gc, v_2314370_25, v_2314374_25);
+Obj v_2314376_25 = makeCons(co->gc, v_2314367_25, v_2314375_25);
+Obj v_2314377_25 = makeCons(co->gc, v_2314364_25, v_2314376_25);
+Obj v_2314378_25 = makeCons(co->gc, v_2314361_25, v_2314377_25);
+Obj v_2314379_25 = makeCons(co->gc, v_2314358_25, v_2314378_25);
+Obj v_2314380_25 = makeCons(co->gc, v_2314355_25, v_2314379_25);
+Obj v_2314381_25 = makeCons(co->gc, v_2314352_25, v_2314380_25);
+Obj v_2314382_25 = makeCons(co->gc, v_2314349_25, v_2314381_25);
+Obj v_2314383_25 = makeCons(co->gc, v_2314346_25, v_2314382_25);
+Obj v_2314384_25 = makeCons(co->gc, v_2314343_25, v_2314383_25);
+Obj v_2314385_25 = makeCons(co->gc, v_2314340_25, v_2314384_25);
+Obj v_2314386_25 = makeCons(co->gc, v_2314337_25, v_2314385_25);
+Obj v_2314387_25 = makeCons(co->gc, v_2314334_25, v_2314386_25);
+Obj v_2314388_25 = makeCons(co->gc, v_2314331_25, v_2314387_25);
+Obj v_2314389_25 = makeCons(co->gc, v_2314328_25, v_2314388_25);
+Obj v_2314390_25 = makeCons(co->gc, v_2314325_25, v_2314389_25);
+Obj v_2314391_25 = primSet(co, getBinding(co, packageID, 69).name, v_2314390_25);
+Obj v_2314406_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun89, 2, 0));
+Obj v_2314410_25 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun90, 1, 0));
+Obj v_2314588_25 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun100, 4, 0));
+Obj v_2314589_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v_2314590_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2314589_25);
+Obj v_2314591_25 = makeCons(co->gc, getBinding(co, packageID, 101).name, v_2314590_25);
+Obj v_2314592_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2314591_25);
+Obj v_2314593_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314592_25);
+Obj v_2314594_25 = makeCons(co->gc, getBinding(co, packageID, 148).name, v_2314593_25);
+Obj v_2314595_25 = makeCons(co->gc, getBinding(co, packageID, 150).name, v_2314594_25);
+Obj v_2314596_25 = makeCons(co->gc, getBinding(co, packageID, 39).name, v_2314595_25);
+Obj v_2314597_25 = makeCons(co->gc, getBinding(co, packageID, 40).name, v_2314596_25);
+Obj v_2314598_25 = makeCons(co->gc, getBinding(co, packageID, 41).name, v_2314597_25);
+Obj v_2314599_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314598_25);
+Obj v_2314600_25 = makeCons(co->gc, getBinding(co, packageID, 42).name, v_2314599_25);
+Obj v_2314601_25 = makeCons(co->gc, getBinding(co, packageID, 43).name, v_2314600_25);
+Obj v_2314602_25 = makeCons(co->gc, getBinding(co, packageID, 70).name, v_2314601_25);
+Obj v_2314603_25 = makeCons(co->gc, getBinding(co, packageID, 44).name, v_2314602_25);
+Obj v_2314604_25 = makeCons(co->gc, getBinding(co, packageID, 45).name, v_2314603_25);
+Obj v_2314605_25 = makeCons(co->gc, getBinding(co, packageID, 46).name, v_2314604_25);
+Obj v_2314606_25 = makeCons(co->gc, getBinding(co, packageID, 47).name, v_2314605_25);
+Obj v_2314607_25 = makeCons(co->gc, getBinding(co, packageID, 48).name, v_2314606_25);
+Obj v_2314608_25 = makeCons(co->gc, getBinding(co, packageID, 49).name, v_2314607_25);
+Obj v_2314609_25 = makeCons(co->gc, getBinding(co, packageID, 50).name, v_2314608_25);
+Obj v_2314610_25 = makeCons(co->gc, getBinding(co, packageID, 51).name, v_2314609_25);
+Obj v_2314611_25 = makeCons(co->gc, getBinding(co, packageID, 52).name, v_2314610_25);
+Obj v_2314612_25 = makeCons(co->gc, getBinding(co, packageID, 72).name, v_2314611_25);
+Obj v_2314613_25 = makeCons(co->gc, getBinding(co, packageID, 74).name, v_2314612_25);
+Obj v_2314614_25 = makeCons(co->gc, getBinding(co, packageID, 73).name, v_2314613_25);
+Obj v_2314615_25 = makeCons(co->gc, getBinding(co, packageID, 162).name, v_2314614_25);
+Obj v_2314616_25 = makeCons(co->gc, getBinding(co, packageID, 54).name, v_2314615_25);
+Obj v_2314617_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2314616_25);
+Obj v_2314618_25 = makeCons(co->gc, getBinding(co, packageID, 132).name, v_2314617_25);
+Obj v_2314619_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2314618_25);
+Obj v_2314620_25 = makeCons(co->gc, getBinding(co, packageID, 155).name, v_2314619_25);
+Obj v_2314621_25 = makeCons(co->gc, getBinding(co, packageID, 156).name, v_2314620_25);
+Obj v_2314622_25 = makeCons(co->gc, getBinding(co, packageID, 157).name, v_2314621_25);
+Obj v_2314623_25 = makeCons(co->gc, getBinding(co, packageID, 158).name, v_2314622_25);
+Obj v_2314624_25 = makeCons(co->gc, getBinding(co, packageID, 159).name, v_2314623_25);
+Obj v_2314625_25 = makeCons(co->gc, getBinding(co, packageID, 160).name, v_2314624_25);
+Obj v_2314626_25 = makeCons(co->gc, getBinding(co, packageID, 161).name, v_2314625_25);
+Obj v_2314627_25 = primSet(co, getBinding(co, packageID, 53).name, v_2314626_25);
+Obj v_2314628_25 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v_2314629_25 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v_2314630_25 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v_2314631_25 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v_2314632_25 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v_2314633_25 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v_2314634_25 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v_2314635_25 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj v_2314636_25 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v_2314637_25 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj v_2314638_25 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj v_2314639_25 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v_2314640_25 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v_2314641_25 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v_2314642_25 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v_2314643_25 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v_2314644_25 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v_2314645_25 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v_2314646_25 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v_2314647_25 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v_2314648_25 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v_2314649_25 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v_2314650_25 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v_2314651_25 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v_2314652_25 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v_2314653_25 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v_2314654_25 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v_2314655_25 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v_2314656_25 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v_2314657_25 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v_2314658_25 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v_2314659_25 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj v_2314660_25 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj v_2314661_25 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj v_2314662_25 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj v_2314663_25 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v_2314664_25 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v_2314665_25 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v_2314666_25 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v_2314666_25);
 return;
 }
 case 2:
 {
-Obj v_2314232_25= co->res;
-Obj v_2314261_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v_2314262_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
+Obj v_2314254_25= co->res;
+Obj v_2314283_25 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun81, 4, 0));
+Obj v_2314284_25 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun82, 2, 0));
+saveCont(co, clofun101, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun85, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2314215_25= co->res;
-Obj v_2314229_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj v_2314237_25= co->res;
+Obj v_2314251_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun77, 2, 0));
+saveCont(co, clofun101, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun78, 1, 0));
 return;
 }
 case 4:
 {
-Obj v_2314193_25= co->res;
-Obj v_2314213_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
-saveCont(co, clofun95, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
+Obj v_2314215_25= co->res;
+Obj v_2314235_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun75, 1, 0));
+saveCont(co, clofun101, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun76, 1, 0));
 return;
 }
 case 5:
 {
-Obj v_2314162_25= co->res;
-Obj v_2314163_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v_2314164_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v_2314167_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v_2314191_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
-saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v_2314184_25= co->res;
+Obj v_2314185_25 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v_2314186_25 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun68, 1, 0));
+Obj v_2314189_25 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v_2314213_25 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun72, 1, 0));
+saveCont(co, clofun101, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun73, 1, 0));
 return;
 }
 case 6:
 {
-Obj v_2314054_25= co->res;
-Obj v_2314106_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v_2314107_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v_2314112_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v_2314116_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v_2314117_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2314125_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v_2314126_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v_2314132_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v_2314143_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v_2314149_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
-saveCont(co, clofun95, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
+Obj v_2314077_25= co->res;
+Obj v_2314129_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun54, 3, 0));
+Obj v_2314130_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun55, 1, 0));
+Obj v_2314135_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v_2314139_25 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun57, 2, 0));
+Obj v_2314140_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v_2314148_25 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun59, 3, 0));
+Obj v_2314149_25 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun60, 2, 0));
+Obj v_2314155_25 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun61, 2, 0));
+Obj v_2314166_25 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun64, 1, 0));
+Obj v_2314172_25 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun65, 1, 0));
+saveCont(co, clofun101, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun66, 1, 0));
 return;
 }
 case 7:
 {
-Obj v_2313949_25= co->res;
-Obj v_2313971_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v_2314004_25 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v_2314017_25 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v_2314039_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v_2314053_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
-saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v_2313960_25= co->res;
+Obj v_2313982_25 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v_2314015_25 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v_2314028_25 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v_2314050_25 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v_2314072_25 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun48, 2, 0));
+Obj v_2314076_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun50, 1, 0));
+saveCont(co, clofun101, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun51, 1, 0));
 return;
 }
 case 8:
 {
-Obj v_2313934_25= co->res;
-Obj v_2313937_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v_2313947_25 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
-saveCont(co, clofun95, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
+Obj v_2313945_25= co->res;
+Obj v_2313948_25 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v_2313958_25 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+saveCont(co, clofun101, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v_2313920_25= co->res;
-Obj v_2313932_25 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
-saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj v_2313932_25= co->res;
+Obj v_2313943_25 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+saveCont(co, clofun101, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v_2313906_25= co->res;
-Obj v_2313918_25 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
-saveCont(co, clofun95, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
+Obj v_2313919_25= co->res;
+Obj v_2313930_25 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+saveCont(co, clofun101, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v_2313892_25= co->res;
-saveCont(co, clofun95, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
+Obj v_2313905_25= co->res;
+saveCont(co, clofun101, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v_2313870_25= co->res;
-Obj v_2313875_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v_2313878_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v_2313890_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
-saveCont(co, clofun95, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
+Obj v_2313883_25= co->res;
+Obj v_2313888_25 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v_2313891_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v_2313903_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+saveCont(co, clofun101, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v_2313860_25= co->res;
-saveCont(co, clofun95, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
+Obj v_2313873_25= co->res;
+saveCont(co, clofun101, 12, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v_2313858_25= co->res;
-saveCont(co, clofun95, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
+Obj v_2313871_25= co->res;
+saveCont(co, clofun101, 13, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v_2313803_25= co->res;
-Obj v_2313804_25 = primSet(co, getBinding(co, packageID, 149).name, v_2313803_25);
-Obj v_2313810_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v_2313811_25 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v_2313812_25 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v_2313813_25 = primGenSym(co);
-Obj v_2313814_25 = primSet(co, getBinding(co, packageID, 145).name, v_2313813_25);
-Obj v_2313818_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v_2313827_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v_2313828_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v_2313845_25 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v_2313846_25 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v_2313857_25 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
-saveCont(co, clofun95, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
+Obj v_2313816_25= co->res;
+Obj v_2313817_25 = primSet(co, getBinding(co, packageID, 150).name, v_2313816_25);
+Obj v_2313823_25 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v_2313824_25 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v_2313825_25 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj v_2313826_25 = primGenSym(co);
+Obj v_2313827_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313826_25);
+Obj v_2313831_25 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v_2313840_25 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v_2313841_25 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v_2313858_25 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v_2313859_25 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj v_2313870_25 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+saveCont(co, clofun101, 14, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313637_25 = R[1];
-Obj v_2313638_25 = R[2];
-Obj v_2313639_25 = R[3];
-Obj v_2313640_25 = R[4];
-Obj v_2313748_25 = makeNative(co->gc, 2, clofun93, 1, 4, v_2313637_25, v_2313638_25, v_2313639_25, v_2313640_25);
-R[1] = v_2313640_25;
-R[2] = v_2313748_25;
-saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313640_25);
+Obj v_2313640_25 = R[1];
+Obj v_2313641_25 = R[2];
+Obj v_2313642_25 = R[3];
+Obj v_2313643_25 = R[4];
+Obj v_2313761_25 = makeNative(co->gc, 2, clofun99, 1, 4, v_2313640_25, v_2313641_25, v_2313642_25, v_2313643_25);
+R[1] = v_2313643_25;
+R[2] = v_2313761_25;
+saveCont(co, clofun100, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_2313643_25);
 return;
 }
 case 1:
 {
-Obj v_2314565_25= co->res;
-Obj v_2313748_25 = R[1];
-if (True == v_2314565_25) {
+Obj v_2314587_25= co->res;
+Obj v_2313761_25 = R[1];
+if (True == v_2314587_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313748_25, True);
+coraCall1(co, v_2313761_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313748_25, False);
+coraCall1(co, v_2313761_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2314564_25= co->res;
-Obj v_2313640_25 = R[1];
-Obj v_2313748_25 = R[2];
-if (True == v_2314564_25) {
+Obj v_2314586_25= co->res;
+Obj v_2313643_25 = R[1];
+Obj v_2313761_25 = R[2];
+if (True == v_2314586_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313748_25, True);
+coraCall1(co, v_2313761_25, True);
 return;
 } else {
-R[1] = v_2313748_25;
-saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313640_25);
+R[1] = v_2313761_25;
+saveCont(co, clofun100, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_2313643_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2314562_25= co->res;
-Obj v_2313640_25 = R[1];
-Obj v_2313748_25 = R[2];
-if (True == v_2314562_25) {
+Obj v_2314584_25= co->res;
+Obj v_2313643_25 = R[1];
+Obj v_2313761_25 = R[2];
+if (True == v_2314584_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313748_25, True);
+coraCall1(co, v_2313761_25, True);
 return;
 } else {
-Obj v_2314563_25 = primIsString(v_2313640_25);
-if (True == v_2314563_25) {
+Obj v_2314585_25 = primIsString(v_2313643_25);
+if (True == v_2314585_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313748_25, True);
+coraCall1(co, v_2313761_25, True);
 return;
 } else {
-R[1] = v_2313640_25;
-R[2] = v_2313748_25;
-saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313640_25);
+R[1] = v_2313643_25;
+R[2] = v_2313761_25;
+saveCont(co, clofun100, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v_2313643_25);
 return;
 }
 }
@@ -663,53 +671,53 @@ return;
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313749_25 = R[1];
-if (True == v_2313749_25) {
+Obj v_2313762_25 = R[1];
+if (True == v_2313762_25) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v_2313642_25 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2314550_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2314550_25) {
-Obj v_2314551_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2314552_25 = PRIM_EQ(getBinding(co, packageID, 139).name, v_2314551_25);
-if (True == v_2314552_25) {
-Obj v_2314553_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314554_25 = PRIM_ISCONS(v_2314553_25);
-if (True == v_2314554_25) {
-Obj v_2314555_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314556_25 = PRIM_CAR(v_2314555_25);
-Obj v_x = v_2314556_25;
-Obj v_2314557_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2314558_25 = PRIM_CDR(v_2314557_25);
-Obj v_2314559_25 = PRIM_EQ(Nil, v_2314558_25);
-if (True == v_2314559_25) {
-Obj v_2314560_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2314561_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314560_25);
-coraReturn(co, v_2314561_25);
+Obj v_2313645_25 = makeNative(co->gc, 3, clofun98, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2314572_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2314572_25) {
+Obj v_2314573_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2314574_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314573_25);
+if (True == v_2314574_25) {
+Obj v_2314575_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314576_25 = PRIM_ISCONS(v_2314575_25);
+if (True == v_2314576_25) {
+Obj v_2314577_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314578_25 = PRIM_CAR(v_2314577_25);
+Obj v_x = v_2314578_25;
+Obj v_2314579_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2314580_25 = PRIM_CDR(v_2314579_25);
+Obj v_2314581_25 = PRIM_EQ(Nil, v_2314580_25);
+if (True == v_2314581_25) {
+Obj v_2314582_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2314583_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314582_25);
+coraReturn(co, v_2314583_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313642_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313642_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313642_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313642_25);
+coraCall0(co, v_2313645_25);
 return;
 }
 }
@@ -717,77 +725,77 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314389_25 = primIsSymbol(closureRef(R[0], 0));
-if (True == v_2314389_25) {
-saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314411_25 = primIsSymbol(closureRef(R[0], 0));
+if (True == v_2314411_25) {
+saveCont(co, clofun98, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2313644_25 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314528_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314528_25) {
-Obj v_2314529_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314530_25 = PRIM_EQ(getBinding(co, packageID, 140).name, v_2314529_25);
-if (True == v_2314530_25) {
-Obj v_2314531_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314532_25 = PRIM_ISCONS(v_2314531_25);
-if (True == v_2314532_25) {
-Obj v_2314533_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314534_25 = PRIM_CAR(v_2314533_25);
-Obj v_args = v_2314534_25;
-Obj v_2314535_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314536_25 = PRIM_CDR(v_2314535_25);
-Obj v_2314537_25 = PRIM_ISCONS(v_2314536_25);
-if (True == v_2314537_25) {
-Obj v_2314538_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314539_25 = PRIM_CDR(v_2314538_25);
-Obj v_2314540_25 = PRIM_CAR(v_2314539_25);
-Obj v_body = v_2314540_25;
-Obj v_2314541_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314542_25 = PRIM_CDR(v_2314541_25);
-Obj v_2314543_25 = PRIM_CDR(v_2314542_25);
-Obj v_2314544_25 = PRIM_EQ(Nil, v_2314543_25);
-if (True == v_2314544_25) {
+Obj v_2313647_25 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314550_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314550_25) {
+Obj v_2314551_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314552_25 = PRIM_EQ(getBinding(co, packageID, 141).name, v_2314551_25);
+if (True == v_2314552_25) {
+Obj v_2314553_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314554_25 = PRIM_ISCONS(v_2314553_25);
+if (True == v_2314554_25) {
+Obj v_2314555_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314556_25 = PRIM_CAR(v_2314555_25);
+Obj v_args = v_2314556_25;
+Obj v_2314557_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314558_25 = PRIM_CDR(v_2314557_25);
+Obj v_2314559_25 = PRIM_ISCONS(v_2314558_25);
+if (True == v_2314559_25) {
+Obj v_2314560_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314561_25 = PRIM_CDR(v_2314560_25);
+Obj v_2314562_25 = PRIM_CAR(v_2314561_25);
+Obj v_body = v_2314562_25;
+Obj v_2314563_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314564_25 = PRIM_CDR(v_2314563_25);
+Obj v_2314565_25 = PRIM_CDR(v_2314564_25);
+Obj v_2314566_25 = PRIM_EQ(Nil, v_2314565_25);
+if (True == v_2314566_25) {
 R[1] = v_body;
 R[2] = v_args;
-saveCont(co, clofun92, 4, R);
+saveCont(co, clofun98, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313644_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313644_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313644_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313644_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313644_25);
+coraCall0(co, v_2313647_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2314391_25= co->res;
-if (True == v_2314391_25) {
+Obj v_2314413_25= co->res;
+if (True == v_2314413_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,219 +806,219 @@ return;
 }
 case 2:
 {
-Obj v_2314390_25= co->res;
-if (True == v_2314390_25) {
+Obj v_2314412_25= co->res;
+if (True == v_2314412_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 55)), closureRef(R[0], 0));
 return;
 }
 }
 case 3:
 {
-Obj v_2314546_25= co->res;
+Obj v_2314568_25= co->res;
 Obj v_args = R[1];
-Obj v_2314547_25 = makeCons(co->gc, v_2314546_25, Nil);
-Obj v_2314548_25 = makeCons(co->gc, v_args, v_2314547_25);
-Obj v_2314549_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314548_25);
-coraReturn(co, v_2314549_25);
+Obj v_2314569_25 = makeCons(co->gc, v_2314568_25, Nil);
+Obj v_2314570_25 = makeCons(co->gc, v_args, v_2314569_25);
+Obj v_2314571_25 = makeCons(co->gc, getBinding(co, packageID, 141).name, v_2314570_25);
+coraReturn(co, v_2314571_25);
 return;
 }
 case 4:
 {
-Obj v_2314545_25= co->res;
+Obj v_2314567_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
 R[1] = v_args;
-saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314545_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
+saveCont(co, clofun98, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314567_25, closureRef(R[0], 2), closureRef(R[0], 3), v_body);
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313645_25 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314484_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314484_25) {
-Obj v_2314485_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314486_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2314485_25);
-if (True == v_2314486_25) {
-Obj v_2314487_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314488_25 = PRIM_ISCONS(v_2314487_25);
-if (True == v_2314488_25) {
-Obj v_2314489_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314490_25 = PRIM_CAR(v_2314489_25);
-Obj v_2314491_25 = PRIM_ISCONS(v_2314490_25);
-if (True == v_2314491_25) {
-Obj v_2314492_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314493_25 = PRIM_CAR(v_2314492_25);
-Obj v_2314494_25 = PRIM_CAR(v_2314493_25);
-Obj v_2314495_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314494_25);
-if (True == v_2314495_25) {
-Obj v_2314496_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314497_25 = PRIM_CAR(v_2314496_25);
-Obj v_2314498_25 = PRIM_CDR(v_2314497_25);
-Obj v_2314499_25 = PRIM_ISCONS(v_2314498_25);
-if (True == v_2314499_25) {
-Obj v_2314500_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314501_25 = PRIM_CAR(v_2314500_25);
-Obj v_2314502_25 = PRIM_CDR(v_2314501_25);
-Obj v_2314503_25 = PRIM_CAR(v_2314502_25);
-Obj v_pkg = v_2314503_25;
-Obj v_2314504_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314505_25 = PRIM_CAR(v_2314504_25);
-Obj v_2314506_25 = PRIM_CDR(v_2314505_25);
-Obj v_2314507_25 = PRIM_CDR(v_2314506_25);
-Obj v_2314508_25 = PRIM_EQ(Nil, v_2314507_25);
+Obj v_2313648_25 = makeNative(co->gc, 1, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314506_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314506_25) {
+Obj v_2314507_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314508_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2314507_25);
 if (True == v_2314508_25) {
 Obj v_2314509_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314510_25 = PRIM_CDR(v_2314509_25);
-Obj v_2314511_25 = PRIM_ISCONS(v_2314510_25);
-if (True == v_2314511_25) {
-Obj v_2314512_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314513_25 = PRIM_CDR(v_2314512_25);
-Obj v_2314514_25 = PRIM_CAR(v_2314513_25);
-Obj v_y = v_2314514_25;
-Obj v_2314515_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314516_25 = PRIM_CDR(v_2314515_25);
-Obj v_2314517_25 = PRIM_CDR(v_2314516_25);
-Obj v_2314518_25 = PRIM_EQ(Nil, v_2314517_25);
-if (True == v_2314518_25) {
-Obj v_2314519_25 = primIsString(v_pkg);
-if (True == v_2314519_25) {
-Obj v_2314520_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2314521_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314520_25);
+Obj v_2314510_25 = PRIM_ISCONS(v_2314509_25);
+if (True == v_2314510_25) {
+Obj v_2314511_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314512_25 = PRIM_CAR(v_2314511_25);
+Obj v_2314513_25 = PRIM_ISCONS(v_2314512_25);
+if (True == v_2314513_25) {
+Obj v_2314514_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314515_25 = PRIM_CAR(v_2314514_25);
+Obj v_2314516_25 = PRIM_CAR(v_2314515_25);
+Obj v_2314517_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314516_25);
+if (True == v_2314517_25) {
+Obj v_2314518_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314519_25 = PRIM_CAR(v_2314518_25);
+Obj v_2314520_25 = PRIM_CDR(v_2314519_25);
+Obj v_2314521_25 = PRIM_ISCONS(v_2314520_25);
+if (True == v_2314521_25) {
+Obj v_2314522_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314523_25 = PRIM_CAR(v_2314522_25);
+Obj v_2314524_25 = PRIM_CDR(v_2314523_25);
+Obj v_2314525_25 = PRIM_CAR(v_2314524_25);
+Obj v_pkg = v_2314525_25;
+Obj v_2314526_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314527_25 = PRIM_CAR(v_2314526_25);
+Obj v_2314528_25 = PRIM_CDR(v_2314527_25);
+Obj v_2314529_25 = PRIM_CDR(v_2314528_25);
+Obj v_2314530_25 = PRIM_EQ(Nil, v_2314529_25);
+if (True == v_2314530_25) {
+Obj v_2314531_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314532_25 = PRIM_CDR(v_2314531_25);
+Obj v_2314533_25 = PRIM_ISCONS(v_2314532_25);
+if (True == v_2314533_25) {
+Obj v_2314534_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314535_25 = PRIM_CDR(v_2314534_25);
+Obj v_2314536_25 = PRIM_CAR(v_2314535_25);
+Obj v_y = v_2314536_25;
+Obj v_2314537_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314538_25 = PRIM_CDR(v_2314537_25);
+Obj v_2314539_25 = PRIM_CDR(v_2314538_25);
+Obj v_2314540_25 = PRIM_EQ(Nil, v_2314539_25);
+if (True == v_2314540_25) {
+Obj v_2314541_25 = primIsString(v_pkg);
+if (True == v_2314541_25) {
+Obj v_2314542_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2314543_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314542_25);
 R[1] = v_pkg;
 R[2] = v_y;
-saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314521_25);
+saveCont(co, clofun97, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2314543_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313645_25);
+coraCall0(co, v_2313648_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314524_25= co->res;
-Obj v_2314522_25 = R[1];
-Obj v_2314525_25 = makeCons(co->gc, v_2314524_25, Nil);
-Obj v_2314526_25 = makeCons(co->gc, v_2314522_25, v_2314525_25);
-Obj v_2314527_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314526_25);
-coraReturn(co, v_2314527_25);
+Obj v_2314546_25= co->res;
+Obj v_2314544_25 = R[1];
+Obj v_2314547_25 = makeCons(co->gc, v_2314546_25, Nil);
+Obj v_2314548_25 = makeCons(co->gc, v_2314544_25, v_2314547_25);
+Obj v_2314549_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314548_25);
+coraReturn(co, v_2314549_25);
 return;
 }
 case 2:
 {
-Obj v_2314522_25= co->res;
+Obj v_2314544_25= co->res;
 Obj v_pkg = R[1];
 Obj v_y = R[2];
-Obj v_2314523_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
-R[1] = v_2314522_25;
-saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314523_25, v_y);
+Obj v_2314545_25 = makeCons(co->gc, v_pkg, closureRef(R[0], 3));
+R[1] = v_2314544_25;
+saveCont(co, clofun97, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v_2314545_25, v_y);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313646_25 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2314476_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314476_25) {
-Obj v_2314477_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2314477_25;
-Obj v_2314478_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2314478_25;
-Obj v_2313758_25 = makeNative(co->gc, 2, clofun89, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313646_25);
-Obj v_2314482_25 = PRIM_EQ(v_op, getBinding(co, packageID, 126).name);
-if (True == v_2314482_25) {
+Obj v_2313649_25 = makeNative(co->gc, 3, clofun94, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2314498_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314498_25) {
+Obj v_2314499_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2314499_25;
+Obj v_2314500_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2314500_25;
+Obj v_2313771_25 = makeNative(co->gc, 2, clofun95, 1, 6, v_op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_args, v_2313649_25);
+Obj v_2314504_25 = PRIM_EQ(v_op, getBinding(co, packageID, 127).name);
+if (True == v_2314504_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313758_25, True);
+coraCall1(co, v_2313771_25, True);
 return;
 } else {
-Obj v_2314483_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
-if (True == v_2314483_25) {
+Obj v_2314505_25 = PRIM_EQ(v_op, getBinding(co, packageID, 90).name);
+if (True == v_2314505_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313758_25, True);
+coraCall1(co, v_2313771_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313758_25, False);
+coraCall1(co, v_2313771_25, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313646_25);
+coraCall0(co, v_2313649_25);
 return;
 }
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313759_25 = R[1];
-if (True == v_2313759_25) {
-saveCont(co, clofun89, 2, R);
+Obj v_2313772_25 = R[1];
+if (True == v_2313772_25) {
+saveCont(co, clofun95, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
@@ -1021,371 +1029,371 @@ return;
 }
 case 1:
 {
-Obj v_2314480_25= co->res;
-Obj v_2314481_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314480_25);
-coraReturn(co, v_2314481_25);
+Obj v_2314502_25= co->res;
+Obj v_2314503_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314502_25);
+coraReturn(co, v_2314503_25);
 return;
 }
 case 2:
 {
-Obj v_2314479_25= co->res;
-saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314479_25, closureRef(R[0], 4));
+Obj v_2314501_25= co->res;
+saveCont(co, clofun95, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v_2314501_25, closureRef(R[0], 4));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313647_25 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2314443_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314443_25) {
-Obj v_2314444_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314445_25 = PRIM_EQ(getBinding(co, packageID, 129).name, v_2314444_25);
-if (True == v_2314445_25) {
-Obj v_2314446_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314447_25 = PRIM_ISCONS(v_2314446_25);
-if (True == v_2314447_25) {
-Obj v_2314448_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314449_25 = PRIM_CAR(v_2314448_25);
-Obj v_a = v_2314449_25;
-Obj v_2314450_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314451_25 = PRIM_CDR(v_2314450_25);
-Obj v_2314452_25 = PRIM_ISCONS(v_2314451_25);
-if (True == v_2314452_25) {
-Obj v_2314453_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314454_25 = PRIM_CDR(v_2314453_25);
-Obj v_2314455_25 = PRIM_CAR(v_2314454_25);
-Obj v_b = v_2314455_25;
-Obj v_2314456_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314457_25 = PRIM_CDR(v_2314456_25);
-Obj v_2314458_25 = PRIM_CDR(v_2314457_25);
-Obj v_2314459_25 = PRIM_ISCONS(v_2314458_25);
-if (True == v_2314459_25) {
-Obj v_2314460_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314461_25 = PRIM_CDR(v_2314460_25);
-Obj v_2314462_25 = PRIM_CDR(v_2314461_25);
-Obj v_2314463_25 = PRIM_CAR(v_2314462_25);
-Obj v_c = v_2314463_25;
-Obj v_2314464_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314465_25 = PRIM_CDR(v_2314464_25);
-Obj v_2314466_25 = PRIM_CDR(v_2314465_25);
-Obj v_2314467_25 = PRIM_CDR(v_2314466_25);
-Obj v_2314468_25 = PRIM_EQ(Nil, v_2314467_25);
-if (True == v_2314468_25) {
+Obj v_2313650_25 = makeNative(co->gc, 1, clofun93, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314465_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314465_25) {
+Obj v_2314466_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314467_25 = PRIM_EQ(getBinding(co, packageID, 130).name, v_2314466_25);
+if (True == v_2314467_25) {
+Obj v_2314468_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314469_25 = PRIM_ISCONS(v_2314468_25);
+if (True == v_2314469_25) {
+Obj v_2314470_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314471_25 = PRIM_CAR(v_2314470_25);
+Obj v_a = v_2314471_25;
+Obj v_2314472_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314473_25 = PRIM_CDR(v_2314472_25);
+Obj v_2314474_25 = PRIM_ISCONS(v_2314473_25);
+if (True == v_2314474_25) {
+Obj v_2314475_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314476_25 = PRIM_CDR(v_2314475_25);
+Obj v_2314477_25 = PRIM_CAR(v_2314476_25);
+Obj v_b = v_2314477_25;
+Obj v_2314478_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314479_25 = PRIM_CDR(v_2314478_25);
+Obj v_2314480_25 = PRIM_CDR(v_2314479_25);
+Obj v_2314481_25 = PRIM_ISCONS(v_2314480_25);
+if (True == v_2314481_25) {
+Obj v_2314482_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314483_25 = PRIM_CDR(v_2314482_25);
+Obj v_2314484_25 = PRIM_CDR(v_2314483_25);
+Obj v_2314485_25 = PRIM_CAR(v_2314484_25);
+Obj v_c = v_2314485_25;
+Obj v_2314486_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314487_25 = PRIM_CDR(v_2314486_25);
+Obj v_2314488_25 = PRIM_CDR(v_2314487_25);
+Obj v_2314489_25 = PRIM_CDR(v_2314488_25);
+Obj v_2314490_25 = PRIM_EQ(Nil, v_2314489_25);
+if (True == v_2314490_25) {
 R[1] = v_c;
 R[2] = v_a;
-saveCont(co, clofun88, 2, R);
+saveCont(co, clofun94, 2, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313647_25);
+coraCall0(co, v_2313650_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313647_25);
+coraCall0(co, v_2313650_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313647_25);
+coraCall0(co, v_2313650_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313647_25);
+coraCall0(co, v_2313650_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313647_25);
+coraCall0(co, v_2313650_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313647_25);
+coraCall0(co, v_2313650_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314471_25= co->res;
-Obj v_2314469_25 = R[1];
+Obj v_2314493_25= co->res;
+Obj v_2314491_25 = R[1];
 Obj v_a = R[2];
-Obj v_2314472_25 = makeCons(co->gc, v_2314471_25, Nil);
-Obj v_2314473_25 = makeCons(co->gc, v_2314469_25, v_2314472_25);
-Obj v_2314474_25 = makeCons(co->gc, v_a, v_2314473_25);
-Obj v_2314475_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314474_25);
-coraReturn(co, v_2314475_25);
+Obj v_2314494_25 = makeCons(co->gc, v_2314493_25, Nil);
+Obj v_2314495_25 = makeCons(co->gc, v_2314491_25, v_2314494_25);
+Obj v_2314496_25 = makeCons(co->gc, v_a, v_2314495_25);
+Obj v_2314497_25 = makeCons(co->gc, getBinding(co, packageID, 130).name, v_2314496_25);
+coraReturn(co, v_2314497_25);
 return;
 }
 case 2:
 {
-Obj v_2314469_25= co->res;
+Obj v_2314491_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-Obj v_2314470_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
-R[1] = v_2314469_25;
+Obj v_2314492_25 = makeCons(co->gc, v_a, closureRef(R[0], 1));
+R[1] = v_2314491_25;
 R[2] = v_a;
-saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314470_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+saveCont(co, clofun94, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v_2314492_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313648_25 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2314417_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2314417_25) {
-Obj v_2314418_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2314419_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2314418_25);
-if (True == v_2314419_25) {
-Obj v_2314420_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314421_25 = PRIM_ISCONS(v_2314420_25);
-if (True == v_2314421_25) {
-Obj v_2314422_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314423_25 = PRIM_CAR(v_2314422_25);
-Obj v_path = v_2314423_25;
-Obj v_2314424_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314425_25 = PRIM_CDR(v_2314424_25);
-Obj v_2314426_25 = PRIM_ISCONS(v_2314425_25);
-if (True == v_2314426_25) {
-Obj v_2314427_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314428_25 = PRIM_CDR(v_2314427_25);
-Obj v_2314429_25 = PRIM_CAR(v_2314428_25);
-Obj v_import = v_2314429_25;
-Obj v_2314430_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314431_25 = PRIM_CDR(v_2314430_25);
-Obj v_2314432_25 = PRIM_CDR(v_2314431_25);
-Obj v_2314433_25 = PRIM_ISCONS(v_2314432_25);
-if (True == v_2314433_25) {
-Obj v_2314434_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314435_25 = PRIM_CDR(v_2314434_25);
-Obj v_2314436_25 = PRIM_CDR(v_2314435_25);
-Obj v_2314437_25 = PRIM_CAR(v_2314436_25);
-Obj v_body = v_2314437_25;
-Obj v_2314438_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2314439_25 = PRIM_CDR(v_2314438_25);
-Obj v_2314440_25 = PRIM_CDR(v_2314439_25);
-Obj v_2314441_25 = PRIM_CDR(v_2314440_25);
-Obj v_2314442_25 = PRIM_EQ(Nil, v_2314441_25);
-if (True == v_2314442_25) {
+Obj v_2313651_25 = makeNative(co->gc, 2, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314439_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2314439_25) {
+Obj v_2314440_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2314441_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2314440_25);
+if (True == v_2314441_25) {
+Obj v_2314442_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314443_25 = PRIM_ISCONS(v_2314442_25);
+if (True == v_2314443_25) {
+Obj v_2314444_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314445_25 = PRIM_CAR(v_2314444_25);
+Obj v_path = v_2314445_25;
+Obj v_2314446_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314447_25 = PRIM_CDR(v_2314446_25);
+Obj v_2314448_25 = PRIM_ISCONS(v_2314447_25);
+if (True == v_2314448_25) {
+Obj v_2314449_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314450_25 = PRIM_CDR(v_2314449_25);
+Obj v_2314451_25 = PRIM_CAR(v_2314450_25);
+Obj v_import = v_2314451_25;
+Obj v_2314452_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314453_25 = PRIM_CDR(v_2314452_25);
+Obj v_2314454_25 = PRIM_CDR(v_2314453_25);
+Obj v_2314455_25 = PRIM_ISCONS(v_2314454_25);
+if (True == v_2314455_25) {
+Obj v_2314456_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314457_25 = PRIM_CDR(v_2314456_25);
+Obj v_2314458_25 = PRIM_CDR(v_2314457_25);
+Obj v_2314459_25 = PRIM_CAR(v_2314458_25);
+Obj v_body = v_2314459_25;
+Obj v_2314460_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2314461_25 = PRIM_CDR(v_2314460_25);
+Obj v_2314462_25 = PRIM_CDR(v_2314461_25);
+Obj v_2314463_25 = PRIM_CDR(v_2314462_25);
+Obj v_2314464_25 = PRIM_EQ(Nil, v_2314463_25);
+if (True == v_2314464_25) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v_path, v_import, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313648_25);
+coraCall0(co, v_2313651_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313648_25);
+coraCall0(co, v_2313651_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313648_25);
+coraCall0(co, v_2313651_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313648_25);
+coraCall0(co, v_2313651_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313648_25);
+coraCall0(co, v_2313651_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313648_25);
+coraCall0(co, v_2313651_25);
 return;
 }
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313649_25 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v_2314393_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314393_25) {
-Obj v_2314394_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314395_25 = PRIM_EQ(getBinding(co, packageID, 133).name, v_2314394_25);
-if (True == v_2314395_25) {
-Obj v_2314396_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314397_25 = PRIM_ISCONS(v_2314396_25);
-if (True == v_2314397_25) {
-Obj v_2314398_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314399_25 = PRIM_CAR(v_2314398_25);
-Obj v_var = v_2314399_25;
-Obj v_2314400_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314401_25 = PRIM_CDR(v_2314400_25);
-Obj v_2314402_25 = PRIM_ISCONS(v_2314401_25);
-if (True == v_2314402_25) {
-Obj v_2314403_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314404_25 = PRIM_CDR(v_2314403_25);
-Obj v_2314405_25 = PRIM_CAR(v_2314404_25);
-Obj v_val = v_2314405_25;
-Obj v_2314406_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314407_25 = PRIM_CDR(v_2314406_25);
-Obj v_2314408_25 = PRIM_CDR(v_2314407_25);
-Obj v_2314409_25 = PRIM_EQ(Nil, v_2314408_25);
-if (True == v_2314409_25) {
+Obj v_2313652_25 = makeNative(co->gc, 1, clofun91, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v_2314415_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314415_25) {
+Obj v_2314416_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314417_25 = PRIM_EQ(getBinding(co, packageID, 134).name, v_2314416_25);
+if (True == v_2314417_25) {
+Obj v_2314418_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314419_25 = PRIM_ISCONS(v_2314418_25);
+if (True == v_2314419_25) {
+Obj v_2314420_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314421_25 = PRIM_CAR(v_2314420_25);
+Obj v_var = v_2314421_25;
+Obj v_2314422_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314423_25 = PRIM_CDR(v_2314422_25);
+Obj v_2314424_25 = PRIM_ISCONS(v_2314423_25);
+if (True == v_2314424_25) {
+Obj v_2314425_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314426_25 = PRIM_CDR(v_2314425_25);
+Obj v_2314427_25 = PRIM_CAR(v_2314426_25);
+Obj v_val = v_2314427_25;
+Obj v_2314428_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314429_25 = PRIM_CDR(v_2314428_25);
+Obj v_2314430_25 = PRIM_CDR(v_2314429_25);
+Obj v_2314431_25 = PRIM_EQ(Nil, v_2314430_25);
+if (True == v_2314431_25) {
 R[1] = v_val;
-saveCont(co, clofun86, 2, R);
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313649_25);
+coraCall0(co, v_2313652_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313649_25);
+coraCall0(co, v_2313652_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313649_25);
+coraCall0(co, v_2313652_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313649_25);
+coraCall0(co, v_2313652_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313649_25);
+coraCall0(co, v_2313652_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314413_25= co->res;
-Obj v_2314412_25 = R[1];
-Obj v_2314414_25 = makeCons(co->gc, v_2314413_25, Nil);
-Obj v_2314415_25 = makeCons(co->gc, v_2314412_25, v_2314414_25);
-Obj v_2314416_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314415_25);
-coraReturn(co, v_2314416_25);
+Obj v_2314435_25= co->res;
+Obj v_2314434_25 = R[1];
+Obj v_2314436_25 = makeCons(co->gc, v_2314435_25, Nil);
+Obj v_2314437_25 = makeCons(co->gc, v_2314434_25, v_2314436_25);
+Obj v_2314438_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314437_25);
+coraReturn(co, v_2314438_25);
 return;
 }
 case 2:
 {
-Obj v_2314410_25= co->res;
+Obj v_2314432_25= co->res;
 Obj v_val = R[1];
-Obj v_var1 = v_2314410_25;
-Obj v_2314411_25 = makeCons(co->gc, v_var1, Nil);
-Obj v_2314412_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314411_25);
-R[1] = v_2314412_25;
-saveCont(co, clofun86, 1, R);
+Obj v_var1 = v_2314432_25;
+Obj v_2314433_25 = makeCons(co->gc, v_var1, Nil);
+Obj v_2314434_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314433_25);
+R[1] = v_2314434_25;
+saveCont(co, clofun92, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_val);
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun85, 1, R);
+saveCont(co, clofun91, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v_2314392_25= co->res;
+Obj v_2314414_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v_2314392_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v_2314414_25, closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-saveCont(co, clofun84, 2, R);
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v_2314386_25= co->res;
-Obj v_2314387_25 = primNot(v_2314386_25);
-coraReturn(co, v_2314387_25);
+Obj v_2314408_25= co->res;
+Obj v_2314409_25 = primNot(v_2314408_25);
+coraReturn(co, v_2314409_25);
 return;
 }
 case 2:
 {
-Obj v_2314385_25= co->res;
-saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314385_25);
+Obj v_2314407_25= co->res;
+saveCont(co, clofun90, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_2314407_25);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313632_25 = R[1];
-Obj v_2313633_25 = R[2];
-Obj v_2314370_25 = PRIM_EQ(Nil, v_2313633_25);
-if (True == v_2314370_25) {
+Obj v_2313635_25 = R[1];
+Obj v_2313636_25 = R[2];
+Obj v_2314392_25 = PRIM_EQ(Nil, v_2313636_25);
+if (True == v_2314392_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2313635_25 = makeNative(co->gc, 1, clofun82, 0, 2, v_2313633_25, v_2313632_25);
-Obj v_2314374_25 = PRIM_ISCONS(v_2313633_25);
-if (True == v_2314374_25) {
-Obj v_2314375_25 = PRIM_CAR(v_2313633_25);
-Obj v_2314376_25 = PRIM_ISCONS(v_2314375_25);
-if (True == v_2314376_25) {
-Obj v_2314377_25 = PRIM_CAR(v_2313633_25);
-Obj v_2314378_25 = PRIM_CAR(v_2314377_25);
-Obj v_x = v_2314378_25;
-Obj v_2314379_25 = PRIM_CAR(v_2313633_25);
-Obj v_2314380_25 = PRIM_CDR(v_2314379_25);
-Obj v_y = v_2314380_25;
-Obj v_2314381_25 = PRIM_CDR(v_2313633_25);
-Obj v_2314382_25 = PRIM_EQ(v_2313632_25, v_x);
-if (True == v_2314382_25) {
-Obj v_2314383_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2314383_25);
+Obj v_2313638_25 = makeNative(co->gc, 1, clofun88, 0, 2, v_2313636_25, v_2313635_25);
+Obj v_2314396_25 = PRIM_ISCONS(v_2313636_25);
+if (True == v_2314396_25) {
+Obj v_2314397_25 = PRIM_CAR(v_2313636_25);
+Obj v_2314398_25 = PRIM_ISCONS(v_2314397_25);
+if (True == v_2314398_25) {
+Obj v_2314399_25 = PRIM_CAR(v_2313636_25);
+Obj v_2314400_25 = PRIM_CAR(v_2314399_25);
+Obj v_x = v_2314400_25;
+Obj v_2314401_25 = PRIM_CAR(v_2313636_25);
+Obj v_2314402_25 = PRIM_CDR(v_2314401_25);
+Obj v_y = v_2314402_25;
+Obj v_2314403_25 = PRIM_CDR(v_2313636_25);
+Obj v_2314404_25 = PRIM_EQ(v_2313635_25, v_x);
+if (True == v_2314404_25) {
+Obj v_2314405_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2314405_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313635_25);
+coraCall0(co, v_2313638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313635_25);
+coraCall0(co, v_2313638_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313635_25);
+coraCall0(co, v_2313638_25);
 return;
 }
 }
@@ -1393,204 +1401,204 @@ return;
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314371_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314371_25) {
-Obj v_2314372_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314373_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2314373_25;
+Obj v_2314393_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314393_25) {
+Obj v_2314394_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314395_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314395_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313627_25 = R[1];
-Obj v_2313628_25 = R[2];
-Obj v_2313629_25 = R[3];
-Obj v_2314289_25 = PRIM_EQ(Nil, v_2313629_25);
-if (True == v_2314289_25) {
+Obj v_2313630_25 = R[1];
+Obj v_2313631_25 = R[2];
+Obj v_2313632_25 = R[3];
+Obj v_2314311_25 = PRIM_EQ(Nil, v_2313632_25);
+if (True == v_2314311_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313627_25, v_2313628_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v_2313630_25, v_2313631_25);
 return;
 } else {
-Obj v_2314290_25 = PRIM_ISCONS(v_2313629_25);
-if (True == v_2314290_25) {
-Obj v_2314291_25 = PRIM_CAR(v_2313629_25);
-Obj v_import = v_2314291_25;
-Obj v_2314292_25 = PRIM_CDR(v_2313629_25);
-Obj v_more = v_2314292_25;
+Obj v_2314312_25 = PRIM_ISCONS(v_2313632_25);
+if (True == v_2314312_25) {
+Obj v_2314313_25 = PRIM_CAR(v_2313632_25);
+Obj v_import = v_2314313_25;
+Obj v_2314314_25 = PRIM_CDR(v_2313632_25);
+Obj v_more = v_2314314_25;
 R[1] = v_import;
-R[2] = v_2313627_25;
-R[3] = v_2313628_25;
+R[2] = v_2313630_25;
+R[3] = v_2313631_25;
 R[4] = v_more;
-saveCont(co, clofun81, 7, R);
+saveCont(co, clofun87, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2314299_25= co->res;
+Obj v_2314321_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314299_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314321_25);
 return;
 }
 case 2:
 {
-Obj v_2314298_25= co->res;
+Obj v_2314320_25= co->res;
 Obj v_import = R[1];
-saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2314298_25);
+saveCont(co, clofun87, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, v_2314320_25);
 return;
 }
 case 3:
 {
-Obj v_2314297_25= co->res;
+Obj v_2314319_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
-saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314297_25);
+saveCont(co, clofun87, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314319_25);
 return;
 }
 case 4:
 {
-Obj v_2314296_25= co->res;
+Obj v_2314318_25= co->res;
 Obj v_import = R[1];
-Obj v_2313627_25 = R[2];
-Obj v_2313628_25 = R[3];
+Obj v_2313630_25 = R[2];
+Obj v_2313631_25 = R[3];
 Obj v_more = R[4];
-if (True == v_2314296_25) {
+if (True == v_2314318_25) {
 R[1] = v_import;
-saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313627_25);
+saveCont(co, clofun87, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2313630_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313627_25, v_2313628_25, v_more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v_2313630_25, v_2313631_25, v_more);
 return;
 }
 }
 case 5:
 {
-Obj v_2314295_25= co->res;
+Obj v_2314317_25= co->res;
 Obj v_import = R[1];
-Obj v_2313627_25 = R[2];
-Obj v_2313628_25 = R[3];
+Obj v_2313630_25 = R[2];
+Obj v_2313631_25 = R[3];
 Obj v_more = R[4];
-Obj v_export = v_2314295_25;
+Obj v_export = v_2314317_25;
 R[1] = v_import;
-R[2] = v_2313627_25;
-R[3] = v_2313628_25;
+R[2] = v_2313630_25;
+R[3] = v_2313631_25;
 R[4] = v_more;
-saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_2313627_25, v_export);
+saveCont(co, clofun87, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_2313630_25, v_export);
 return;
 }
 case 6:
 {
-Obj v_2314294_25= co->res;
+Obj v_2314316_25= co->res;
 Obj v_import = R[1];
-Obj v_2313627_25 = R[2];
-Obj v_2313628_25 = R[3];
+Obj v_2313630_25 = R[2];
+Obj v_2313631_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2313627_25;
-R[3] = v_2313628_25;
+R[2] = v_2313630_25;
+R[3] = v_2313631_25;
 R[4] = v_more;
-saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2314294_25, Nil);
+saveCont(co, clofun87, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_2314316_25, Nil);
 return;
 }
 case 7:
 {
-Obj v_2314293_25= co->res;
+Obj v_2314315_25= co->res;
 Obj v_import = R[1];
-Obj v_2313627_25 = R[2];
-Obj v_2313628_25 = R[3];
+Obj v_2313630_25 = R[2];
+Obj v_2313631_25 = R[3];
 Obj v_more = R[4];
 R[1] = v_import;
-R[2] = v_2313627_25;
-R[3] = v_2313628_25;
+R[2] = v_2313630_25;
+R[3] = v_2313631_25;
 R[4] = v_more;
-saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314293_25);
+saveCont(co, clofun87, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314315_25);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2314283_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v_2314283_25) {
+Obj v_2314305_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v_2314305_25) {
 coraReturn(co, v_var);
 return;
 } else {
 R[1] = v_var;
 R[2] = v_ns;
-saveCont(co, clofun80, 4, R);
+saveCont(co, clofun86, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
 return;
 }
 }
 case 1:
 {
-Obj v_2314287_25= co->res;
+Obj v_2314309_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314287_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_2314309_25);
 return;
 }
 case 2:
 {
-Obj v_2314286_25= co->res;
+Obj v_2314308_25= co->res;
 Obj v_ns = R[1];
-saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2314286_25);
+saveCont(co, clofun86, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v_2314308_25);
 return;
 }
 case 3:
 {
-Obj v_2314285_25= co->res;
+Obj v_2314307_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
-saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314285_25);
+saveCont(co, clofun86, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314307_25);
 return;
 }
 case 4:
 {
-Obj v_2314284_25= co->res;
+Obj v_2314306_25= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v_2314284_25) {
+if (True == v_2314306_25) {
 coraReturn(co, v_var);
 return;
 } else {
 R[1] = v_ns;
-saveCont(co, clofun80, 3, R);
+saveCont(co, clofun86, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
 return;
 }
@@ -1598,107 +1606,107 @@ return;
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_sexp);
+saveCont(co, clofun85, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_sexp);
 return;
 }
 case 1:
 {
-Obj v_2314265_25= co->res;
+Obj v_2314287_25= co->res;
 Obj v_path = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2314265_25, makeNative(co->gc, 4, clofun78, 3, 1, v_path));
+coraCall1(co, v_2314287_25, makeNative(co->gc, 4, clofun84, 3, 1, v_path));
 return;
 }
 case 2:
 {
-Obj v_2314264_25= co->res;
+Obj v_2314286_25= co->res;
 Obj v_path = R[1];
 R[1] = v_path;
-saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2314264_25);
+saveCont(co, clofun85, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v_2314286_25);
 return;
 }
 case 3:
 {
-Obj v_2314263_25= co->res;
+Obj v_2314285_25= co->res;
 Obj v_sexp = R[1];
-Obj v_path = v_2314263_25;
+Obj v_path = v_2314285_25;
 R[1] = v_path;
-saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
+saveCont(co, clofun85, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_sexp);
 return;
 }
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2314266_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2314288_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v_2314266_25;
-saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
+R[3] = v_2314288_25;
+saveCont(co, clofun84, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun83, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v_2314276_25= co->res;
-Obj v_2314266_25 = R[1];
-Obj v_2314277_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2314276_25);
-Obj v_2314278_25 = makeCons(co->gc, v_2314277_25, Nil);
-Obj v_2314279_25 = makeCons(co->gc, v_2314266_25, v_2314278_25);
-Obj v_2314280_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314279_25);
-Obj v_2314281_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2314280_25);
-coraReturn(co, v_2314281_25);
+Obj v_2314298_25= co->res;
+Obj v_2314288_25 = R[1];
+Obj v_2314299_25 = makeCons(co->gc, getBinding(co, packageID, 89).name, v_2314298_25);
+Obj v_2314300_25 = makeCons(co->gc, v_2314299_25, Nil);
+Obj v_2314301_25 = makeCons(co->gc, v_2314288_25, v_2314300_25);
+Obj v_2314302_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314301_25);
+Obj v_2314303_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2314302_25);
+coraReturn(co, v_2314303_25);
 return;
 }
 case 2:
 {
-Obj v_2314269_25= co->res;
+Obj v_2314291_25= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v_2314266_25 = R[3];
-Obj v_2314270_25 = makeCons(co->gc, v_export, Nil);
-Obj v_2314271_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2314270_25);
-Obj v_2314272_25 = makeCons(co->gc, v_2314271_25, Nil);
-Obj v_2314273_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2314272_25);
-Obj v_2314274_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2314273_25);
-Obj v_2314275_25 = makeCons(co->gc, v_2314274_25, v_body);
-R[1] = v_2314266_25;
-saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314269_25, v_2314275_25);
+Obj v_2314288_25 = R[3];
+Obj v_2314292_25 = makeCons(co->gc, v_export, Nil);
+Obj v_2314293_25 = makeCons(co->gc, getBinding(co, packageID, 86).name, v_2314292_25);
+Obj v_2314294_25 = makeCons(co->gc, v_2314293_25, Nil);
+Obj v_2314295_25 = makeCons(co->gc, getBinding(co, packageID, 77).name, v_2314294_25);
+Obj v_2314296_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2314295_25);
+Obj v_2314297_25 = makeCons(co->gc, v_2314296_25, v_body);
+R[1] = v_2314288_25;
+saveCont(co, clofun84, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314291_25, v_2314297_25);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v_2314267_25 = makeCons(co->gc, v_imp, Nil);
-Obj v_2314268_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314267_25);
-coraReturn(co, v_2314268_25);
+Obj v_2314289_25 = makeCons(co->gc, v_imp, Nil);
+Obj v_2314290_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2314289_25);
+coraReturn(co, v_2314290_25);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1711,162 +1719,162 @@ return;
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313620_25 = R[1];
-Obj v_2313621_25 = R[2];
-Obj v_2313622_25 = R[3];
-Obj v_2313623_25 = R[4];
-Obj v_2313624_25 = makeNative(co->gc, 1, clofun74, 0, 4, v_2313622_25, v_2313620_25, v_2313621_25, v_2313623_25);
-Obj v_2314243_25 = PRIM_ISCONS(v_2313620_25);
-if (True == v_2314243_25) {
-Obj v_2314244_25 = PRIM_CAR(v_2313620_25);
-Obj v_2314245_25 = PRIM_ISCONS(v_2314244_25);
-if (True == v_2314245_25) {
-Obj v_2314246_25 = PRIM_CAR(v_2313620_25);
-Obj v_2314247_25 = PRIM_CAR(v_2314246_25);
-Obj v_2314248_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314247_25);
-if (True == v_2314248_25) {
-Obj v_2314249_25 = PRIM_CAR(v_2313620_25);
-Obj v_2314250_25 = PRIM_CDR(v_2314249_25);
-Obj v_2314251_25 = PRIM_ISCONS(v_2314250_25);
-if (True == v_2314251_25) {
-Obj v_2314252_25 = PRIM_CAR(v_2313620_25);
-Obj v_2314253_25 = PRIM_CDR(v_2314252_25);
-Obj v_2314254_25 = PRIM_CAR(v_2314253_25);
-Obj v_lib = v_2314254_25;
-Obj v_2314255_25 = PRIM_CAR(v_2313620_25);
-Obj v_2314256_25 = PRIM_CDR(v_2314255_25);
-Obj v_2314257_25 = PRIM_CDR(v_2314256_25);
-Obj v_2314258_25 = PRIM_EQ(Nil, v_2314257_25);
-if (True == v_2314258_25) {
-Obj v_2314259_25 = PRIM_CDR(v_2313620_25);
-Obj v_rest = v_2314259_25;
-Obj v_2314260_25 = makeCons(co->gc, v_lib, v_2313621_25);
+Obj v_2313623_25 = R[1];
+Obj v_2313624_25 = R[2];
+Obj v_2313625_25 = R[3];
+Obj v_2313626_25 = R[4];
+Obj v_2313627_25 = makeNative(co->gc, 1, clofun80, 0, 4, v_2313625_25, v_2313623_25, v_2313624_25, v_2313626_25);
+Obj v_2314265_25 = PRIM_ISCONS(v_2313623_25);
+if (True == v_2314265_25) {
+Obj v_2314266_25 = PRIM_CAR(v_2313623_25);
+Obj v_2314267_25 = PRIM_ISCONS(v_2314266_25);
+if (True == v_2314267_25) {
+Obj v_2314268_25 = PRIM_CAR(v_2313623_25);
+Obj v_2314269_25 = PRIM_CAR(v_2314268_25);
+Obj v_2314270_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2314269_25);
+if (True == v_2314270_25) {
+Obj v_2314271_25 = PRIM_CAR(v_2313623_25);
+Obj v_2314272_25 = PRIM_CDR(v_2314271_25);
+Obj v_2314273_25 = PRIM_ISCONS(v_2314272_25);
+if (True == v_2314273_25) {
+Obj v_2314274_25 = PRIM_CAR(v_2313623_25);
+Obj v_2314275_25 = PRIM_CDR(v_2314274_25);
+Obj v_2314276_25 = PRIM_CAR(v_2314275_25);
+Obj v_lib = v_2314276_25;
+Obj v_2314277_25 = PRIM_CAR(v_2313623_25);
+Obj v_2314278_25 = PRIM_CDR(v_2314277_25);
+Obj v_2314279_25 = PRIM_CDR(v_2314278_25);
+Obj v_2314280_25 = PRIM_EQ(Nil, v_2314279_25);
+if (True == v_2314280_25) {
+Obj v_2314281_25 = PRIM_CDR(v_2313623_25);
+Obj v_rest = v_2314281_25;
+Obj v_2314282_25 = makeCons(co->gc, v_lib, v_2313624_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2314260_25, v_2313622_25, v_2313623_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, v_2314282_25, v_2313625_25, v_2313626_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313624_25);
+coraCall0(co, v_2313627_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313624_25);
+coraCall0(co, v_2313627_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313624_25);
+coraCall0(co, v_2313627_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313624_25);
+coraCall0(co, v_2313627_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313624_25);
+coraCall0(co, v_2313627_25);
 return;
 }
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313625_25 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2314234_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2314234_25) {
-Obj v_2314235_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2314236_25 = PRIM_ISCONS(v_2314235_25);
-if (True == v_2314236_25) {
-Obj v_2314237_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2314238_25 = PRIM_CAR(v_2314237_25);
-Obj v_2314239_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2314238_25);
-if (True == v_2314239_25) {
-Obj v_2314240_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2314241_25 = PRIM_CDR(v_2314240_25);
-Obj v_more = v_2314241_25;
-Obj v_2314242_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_rest = v_2314242_25;
+Obj v_2313628_25 = makeNative(co->gc, 1, clofun79, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314256_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2314256_25) {
+Obj v_2314257_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314258_25 = PRIM_ISCONS(v_2314257_25);
+if (True == v_2314258_25) {
+Obj v_2314259_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314260_25 = PRIM_CAR(v_2314259_25);
+Obj v_2314261_25 = PRIM_EQ(getBinding(co, packageID, 82).name, v_2314260_25);
+if (True == v_2314261_25) {
+Obj v_2314262_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2314263_25 = PRIM_CDR(v_2314262_25);
+Obj v_more = v_2314263_25;
+Obj v_2314264_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_rest = v_2314264_25;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_rest, closureRef(R[0], 2), v_more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313625_25);
+coraCall0(co, v_2313628_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313625_25);
+coraCall0(co, v_2313628_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313625_25);
+coraCall0(co, v_2313628_25);
 return;
 }
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+saveCont(co, clofun79, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj v_2314233_25= co->res;
+Obj v_2314255_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v_2314233_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v_2314255_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun78, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2314231_25= co->res;
-Obj v_2314230_25 = R[1];
+Obj v_2314253_25= co->res;
+Obj v_2314252_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2314230_25, v_2314231_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2314252_25, v_2314253_25);
 return;
 }
 case 2:
 {
-Obj v_2314230_25= co->res;
+Obj v_2314252_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2314230_25;
-saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+R[1] = v_2314252_25;
+saveCont(co, clofun78, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1874,135 +1882,135 @@ Obj v_fn = R[1];
 Obj v_arglist = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
-saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_arglist);
+saveCont(co, clofun77, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_arglist);
 return;
 }
 case 1:
 {
-Obj v_2314219_25= co->res;
-Obj v_2314218_25 = R[1];
+Obj v_2314241_25= co->res;
+Obj v_2314240_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2314220_25 = makeCons(co->gc, v_2314219_25, Nil);
-Obj v_2314221_25 = makeCons(co->gc, v_2314218_25, v_2314220_25);
-Obj v_2314222_25 = makeCons(co->gc, v_fn, v_2314221_25);
-coraReturn(co, v_2314222_25);
+Obj v_2314242_25 = makeCons(co->gc, v_2314241_25, Nil);
+Obj v_2314243_25 = makeCons(co->gc, v_2314240_25, v_2314242_25);
+Obj v_2314244_25 = makeCons(co->gc, v_fn, v_2314243_25);
+coraReturn(co, v_2314244_25);
 return;
 }
 case 2:
 {
-Obj v_2314225_25= co->res;
-Obj v_2314223_25 = R[1];
+Obj v_2314247_25= co->res;
+Obj v_2314245_25 = R[1];
 Obj v_fn = R[2];
-Obj v_2314226_25 = makeCons(co->gc, v_2314225_25, Nil);
-Obj v_2314227_25 = makeCons(co->gc, v_2314223_25, v_2314226_25);
-Obj v_2314228_25 = makeCons(co->gc, v_fn, v_2314227_25);
-coraReturn(co, v_2314228_25);
+Obj v_2314248_25 = makeCons(co->gc, v_2314247_25, Nil);
+Obj v_2314249_25 = makeCons(co->gc, v_2314245_25, v_2314248_25);
+Obj v_2314250_25 = makeCons(co->gc, v_fn, v_2314249_25);
+coraReturn(co, v_2314250_25);
 return;
 }
 case 3:
 {
-Obj v_2314217_25= co->res;
+Obj v_2314239_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v_2314217_25) {
-Obj v_2314218_25 = PRIM_CAR(v_arglist);
-R[1] = v_2314218_25;
+if (True == v_2314239_25) {
+Obj v_2314240_25 = PRIM_CAR(v_arglist);
+R[1] = v_2314240_25;
 R[2] = v_fn;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
+saveCont(co, clofun77, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_arglist);
 return;
 } else {
-Obj v_2314223_25 = PRIM_CAR(v_arglist);
-Obj v_2314224_25 = PRIM_CDR(v_arglist);
-R[1] = v_2314223_25;
+Obj v_2314245_25 = PRIM_CAR(v_arglist);
+Obj v_2314246_25 = PRIM_CDR(v_arglist);
+R[1] = v_2314245_25;
 R[2] = v_fn;
-saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2314224_25);
+saveCont(co, clofun77, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v_2314246_25);
 return;
 }
 }
 case 4:
 {
-Obj v_2314216_25= co->res;
+Obj v_2314238_25= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
-saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314216_25);
+saveCont(co, clofun77, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_2314238_25);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun76, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2314214_25= co->res;
+Obj v_2314236_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2314214_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v_2314236_25);
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313615_25 = R[1];
-Obj v_2314194_25 = primIsSymbol(v_2313615_25);
-if (True == v_2314194_25) {
-Obj v_2314195_25 = makeCons(co->gc, v_2313615_25, Nil);
-Obj v_2314196_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2314195_25);
-coraReturn(co, v_2314196_25);
-return;
-} else {
-Obj v_2313617_25 = makeNative(co->gc, 1, clofun68, 0, 1, v_2313615_25);
-Obj v_2314203_25 = PRIM_ISCONS(v_2313615_25);
-if (True == v_2314203_25) {
-Obj v_2314204_25 = PRIM_CAR(v_2313615_25);
-Obj v_2314205_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2314204_25);
-if (True == v_2314205_25) {
-Obj v_2314206_25 = PRIM_CDR(v_2313615_25);
-Obj v_2314207_25 = PRIM_ISCONS(v_2314206_25);
-if (True == v_2314207_25) {
-Obj v_2314208_25 = PRIM_CDR(v_2313615_25);
-Obj v_2314209_25 = PRIM_CAR(v_2314208_25);
-Obj v_x = v_2314209_25;
-Obj v_2314210_25 = PRIM_CDR(v_2313615_25);
-Obj v_2314211_25 = PRIM_CDR(v_2314210_25);
-Obj v_2314212_25 = PRIM_EQ(Nil, v_2314211_25);
-if (True == v_2314212_25) {
+Obj v_2313618_25 = R[1];
+Obj v_2314216_25 = primIsSymbol(v_2313618_25);
+if (True == v_2314216_25) {
+Obj v_2314217_25 = makeCons(co->gc, v_2313618_25, Nil);
+Obj v_2314218_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314217_25);
+coraReturn(co, v_2314218_25);
+return;
+} else {
+Obj v_2313620_25 = makeNative(co->gc, 1, clofun74, 0, 1, v_2313618_25);
+Obj v_2314225_25 = PRIM_ISCONS(v_2313618_25);
+if (True == v_2314225_25) {
+Obj v_2314226_25 = PRIM_CAR(v_2313618_25);
+Obj v_2314227_25 = PRIM_EQ(getBinding(co, packageID, 87).name, v_2314226_25);
+if (True == v_2314227_25) {
+Obj v_2314228_25 = PRIM_CDR(v_2313618_25);
+Obj v_2314229_25 = PRIM_ISCONS(v_2314228_25);
+if (True == v_2314229_25) {
+Obj v_2314230_25 = PRIM_CDR(v_2313618_25);
+Obj v_2314231_25 = PRIM_CAR(v_2314230_25);
+Obj v_x = v_2314231_25;
+Obj v_2314232_25 = PRIM_CDR(v_2313618_25);
+Obj v_2314233_25 = PRIM_CDR(v_2314232_25);
+Obj v_2314234_25 = PRIM_EQ(Nil, v_2314233_25);
+if (True == v_2314234_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313617_25);
+coraCall0(co, v_2313620_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313617_25);
+coraCall0(co, v_2313620_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313617_25);
+coraCall0(co, v_2313620_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313617_25);
+coraCall0(co, v_2313620_25);
 return;
 }
 }
@@ -2010,19 +2018,19 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314197_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314197_25) {
-Obj v_2314198_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314198_25;
-Obj v_2314199_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2314199_25;
-Obj v_2314200_25 = makeCons(co->gc, v_x, v_more);
-saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v_2314200_25);
+Obj v_2314219_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314219_25) {
+Obj v_2314220_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314220_25;
+Obj v_2314221_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2314221_25;
+Obj v_2314222_25 = makeCons(co->gc, v_x, v_more);
+saveCont(co, clofun74, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v_2314222_25);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,159 +2039,159 @@ return;
 }
 case 1:
 {
-Obj v_2314201_25= co->res;
-Obj v_2314202_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314201_25);
-coraReturn(co, v_2314202_25);
+Obj v_2314223_25= co->res;
+Obj v_2314224_25 = makeCons(co->gc, getBinding(co, packageID, 136).name, v_2314223_25);
+coraReturn(co, v_2314224_25);
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2314192_25 = PRIM_CDR(v_exp);
+Obj v_2314214_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2314192_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_2314214_25);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313611_25 = R[1];
-Obj v_2313612_25 = makeNative(co->gc, 1, clofun65, 0, 1, v_2313611_25);
-Obj v_2314187_25 = PRIM_ISCONS(v_2313611_25);
-if (True == v_2314187_25) {
-Obj v_2314188_25 = PRIM_CAR(v_2313611_25);
-Obj v_x = v_2314188_25;
-Obj v_2314189_25 = PRIM_CDR(v_2313611_25);
-Obj v_2314190_25 = PRIM_EQ(Nil, v_2314189_25);
-if (True == v_2314190_25) {
+Obj v_2313614_25 = R[1];
+Obj v_2313615_25 = makeNative(co->gc, 1, clofun71, 0, 1, v_2313614_25);
+Obj v_2314209_25 = PRIM_ISCONS(v_2313614_25);
+if (True == v_2314209_25) {
+Obj v_2314210_25 = PRIM_CAR(v_2313614_25);
+Obj v_x = v_2314210_25;
+Obj v_2314211_25 = PRIM_CDR(v_2313614_25);
+Obj v_2314212_25 = PRIM_EQ(Nil, v_2314211_25);
+if (True == v_2314212_25) {
 coraReturn(co, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313612_25);
+coraCall0(co, v_2313615_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313612_25);
+coraCall0(co, v_2313615_25);
 return;
 }
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313613_25 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v_2314175_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314175_25) {
-Obj v_2314176_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314176_25;
-Obj v_2314177_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314178_25 = PRIM_ISCONS(v_2314177_25);
-if (True == v_2314178_25) {
-Obj v_2314179_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314180_25 = PRIM_CAR(v_2314179_25);
-Obj v_y = v_2314180_25;
-Obj v_2314181_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314182_25 = PRIM_CDR(v_2314181_25);
-Obj v_2314183_25 = PRIM_EQ(Nil, v_2314182_25);
-if (True == v_2314183_25) {
-Obj v_2314184_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2314185_25 = makeCons(co->gc, v_x, v_2314184_25);
-Obj v_2314186_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314185_25);
-coraReturn(co, v_2314186_25);
+Obj v_2313616_25 = makeNative(co->gc, 2, clofun70, 0, 1, closureRef(R[0], 0));
+Obj v_2314197_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314197_25) {
+Obj v_2314198_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314198_25;
+Obj v_2314199_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314200_25 = PRIM_ISCONS(v_2314199_25);
+if (True == v_2314200_25) {
+Obj v_2314201_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314202_25 = PRIM_CAR(v_2314201_25);
+Obj v_y = v_2314202_25;
+Obj v_2314203_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314204_25 = PRIM_CDR(v_2314203_25);
+Obj v_2314205_25 = PRIM_EQ(Nil, v_2314204_25);
+if (True == v_2314205_25) {
+Obj v_2314206_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2314207_25 = makeCons(co->gc, v_x, v_2314206_25);
+Obj v_2314208_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314207_25);
+coraReturn(co, v_2314208_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313613_25);
+coraCall0(co, v_2313616_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313613_25);
+coraCall0(co, v_2313616_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313613_25);
+coraCall0(co, v_2313616_25);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314168_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314168_25) {
-Obj v_2314169_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314169_25;
-Obj v_2314170_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2314170_25;
+Obj v_2314190_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314190_25) {
+Obj v_2314191_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314191_25;
+Obj v_2314192_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314192_25;
 R[1] = v_x;
-saveCont(co, clofun64, 1, R);
+saveCont(co, clofun70, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v_2314171_25= co->res;
+Obj v_2314193_25= co->res;
 Obj v_x = R[1];
-Obj v_2314172_25 = makeCons(co->gc, v_2314171_25, Nil);
-Obj v_2314173_25 = makeCons(co->gc, v_x, v_2314172_25);
-Obj v_2314174_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314173_25);
-coraReturn(co, v_2314174_25);
+Obj v_2314194_25 = makeCons(co->gc, v_2314193_25, Nil);
+Obj v_2314195_25 = makeCons(co->gc, v_x, v_2314194_25);
+Obj v_2314196_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2314195_25);
+coraReturn(co, v_2314196_25);
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp);
+saveCont(co, clofun69, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2314166_25= co->res;
+Obj v_2314188_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2314166_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_2314188_25);
 return;
 }
 case 2:
 {
-Obj v_2314165_25= co->res;
-saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2314165_25);
+Obj v_2314187_25= co->res;
+saveCont(co, clofun69, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_2314187_25);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2194,7 +2202,7 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2206,124 +2214,145 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+saveCont(co, clofun66, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2314154_25= co->res;
+Obj v_2314179_25= co->res;
+Obj v_args = R[1];
+Obj v_2314177_25 = R[2];
+Obj v_2314180_25 = makeCons(co->gc, v_2314179_25, Nil);
+Obj v_2314181_25 = makeCons(co->gc, v_args, v_2314180_25);
+Obj v_2314182_25 = makeCons(co->gc, v_2314177_25, v_2314181_25);
+Obj v_2314183_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314182_25);
+coraReturn(co, v_2314183_25);
+return;
+}
+case 2:
+{
+Obj v_2314178_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2314155_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_args);
-Obj v_2314156_25 = makeCons(co->gc, v_2314155_25, v_body);
-Obj v_2314157_25 = makeCons(co->gc, getBinding(co, packageID, 107).name, v_2314156_25);
-Obj v_2314158_25 = makeCons(co->gc, v_2314157_25, Nil);
-Obj v_2314159_25 = makeCons(co->gc, v_args, v_2314158_25);
-Obj v_2314160_25 = makeCons(co->gc, v_2314154_25, v_2314159_25);
-Obj v_2314161_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2314160_25);
-coraReturn(co, v_2314161_25);
+Obj v_2314177_25 = R[3];
+R[1] = v_args;
+R[2] = v_2314177_25;
+saveCont(co, clofun66, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v_2314178_25, v_body);
 return;
 }
-case 2:
+case 3:
 {
-Obj v_2314153_25= co->res;
+Obj v_2314177_25= co->res;
+Obj v_body = R[1];
+Obj v_args = R[2];
+R[1] = v_body;
+R[2] = v_args;
+R[3] = v_2314177_25;
+saveCont(co, clofun66, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_args);
+return;
+}
+case 4:
+{
+Obj v_2314176_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_args = v_2314153_25;
+Obj v_args = v_2314176_25;
 R[1] = v_body;
 R[2] = v_args;
-saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun66, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
-case 3:
+case 5:
 {
-Obj v_2314152_25= co->res;
+Obj v_2314175_25= co->res;
 Obj v_exp = R[1];
 Obj v_body = R[2];
-Obj v_nargs = v_2314152_25;
+Obj v_nargs = v_2314175_25;
 R[1] = v_exp;
 R[2] = v_body;
-saveCont(co, clofun60, 2, R);
+saveCont(co, clofun66, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_nargs);
 return;
 }
-case 4:
+case 6:
 {
-Obj v_2314151_25= co->res;
+Obj v_2314174_25= co->res;
 Obj v_exp = R[1];
-Obj v_body = v_2314151_25;
+Obj v_body = v_2314174_25;
 R[1] = v_exp;
 R[2] = v_body;
-saveCont(co, clofun60, 3, R);
+saveCont(co, clofun66, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v_body);
 return;
 }
-case 5:
+case 7:
 {
-Obj v_2314150_25= co->res;
+Obj v_2314173_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2314150_25);
+saveCont(co, clofun66, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_2314173_25);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v_2314144_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v_2314144_25) {
+Obj v_2314167_25 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v_2314167_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2314145_25 = primGenSym(co);
-Obj v_2314146_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v_2314145_25;
-saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2314146_25);
+Obj v_2314168_25 = primGenSym(co);
+Obj v_2314169_25 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v_2314168_25;
+saveCont(co, clofun65, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v_2314169_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314147_25= co->res;
-Obj v_2314145_25 = R[1];
-Obj v_2314148_25 = makeCons(co->gc, v_2314145_25, v_2314147_25);
-coraReturn(co, v_2314148_25);
+Obj v_2314170_25= co->res;
+Obj v_2314168_25 = R[1];
+Obj v_2314171_25 = makeCons(co->gc, v_2314168_25, v_2314170_25);
+coraReturn(co, v_2314171_25);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rules = R[1];
-saveCont(co, clofun58, 4, R);
+saveCont(co, clofun64, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
 return;
 }
 case 1:
 {
-Obj v_2314141_25= co->res;
+Obj v_2314164_25= co->res;
 Obj v_n = R[1];
-Obj v_2314142_25 = primNot(v_2314141_25);
-if (True == v_2314142_25) {
+Obj v_2314165_25 = primNot(v_2314164_25);
+if (True == v_2314165_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
 coraReturn(co, v_n);
@@ -2332,93 +2361,93 @@ return;
 }
 case 2:
 {
-Obj v_2314140_25= co->res;
+Obj v_2314163_25= co->res;
 Obj v_n = R[1];
 R[1] = v_n;
-saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2314140_25);
+saveCont(co, clofun64, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_2314163_25);
 return;
 }
 case 3:
 {
-Obj v_2314135_25= co->res;
-Obj v_counts = v_2314135_25;
-Obj v_2314136_25 = PRIM_CAR(v_counts);
-Obj v_n = v_2314136_25;
-Obj v_2314139_25 = PRIM_CDR(v_counts);
+Obj v_2314158_25= co->res;
+Obj v_counts = v_2314158_25;
+Obj v_2314159_25 = PRIM_CAR(v_counts);
+Obj v_n = v_2314159_25;
+Obj v_2314162_25 = PRIM_CDR(v_counts);
 R[1] = v_n;
-saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v_n), v_2314139_25);
+saveCont(co, clofun64, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun63, 1, 1, v_n), v_2314162_25);
 return;
 }
 case 4:
 {
-Obj v_2314133_25= co->res;
-Obj v_pats = v_2314133_25;
-saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v_pats);
+Obj v_2314156_25= co->res;
+Obj v_pats = v_2314156_25;
+saveCont(co, clofun64, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun62, 1, 0), v_pats);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2314137_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v_2314138_25 = primNot(v_2314137_25);
-coraReturn(co, v_2314138_25);
+Obj v_2314160_25 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v_2314161_25 = primNot(v_2314160_25);
+coraReturn(co, v_2314161_25);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2314134_25 = PRIM_CDR(v_x);
+Obj v_2314157_25 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2314134_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_2314157_25);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v_2314127_25 = PRIM_EQ(v_l1, Nil);
-if (True == v_2314127_25) {
+Obj v_2314150_25 = PRIM_EQ(v_l1, Nil);
+if (True == v_2314150_25) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v_2314128_25 = PRIM_CAR(v_l1);
-Obj v_2314129_25 = PRIM_CDR(v_l1);
-R[1] = v_2314128_25;
-saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314129_25, v_l2);
+Obj v_2314151_25 = PRIM_CAR(v_l1);
+Obj v_2314152_25 = PRIM_CDR(v_l1);
+R[1] = v_2314151_25;
+saveCont(co, clofun61, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v_2314152_25, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v_2314130_25= co->res;
-Obj v_2314128_25 = R[1];
-Obj v_2314131_25 = makeCons(co->gc, v_2314128_25, v_2314130_25);
-coraReturn(co, v_2314131_25);
+Obj v_2314153_25= co->res;
+Obj v_2314151_25 = R[1];
+Obj v_2314154_25 = makeCons(co->gc, v_2314151_25, v_2314153_25);
+coraReturn(co, v_2314154_25);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2431,52 +2460,52 @@ return;
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v_2314118_25 = PRIM_ISCONS(v_l);
-if (True == v_2314118_25) {
-Obj v_2314119_25 = PRIM_CAR(v_l);
+Obj v_2314141_25 = PRIM_ISCONS(v_l);
+if (True == v_2314141_25) {
+Obj v_2314142_25 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
-saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v_2314119_25);
+saveCont(co, clofun59, 1, R);
+coraCall1(co, v_fn, v_2314142_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj v_2314120_25= co->res;
+Obj v_2314143_25= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v_2314120_25) {
-Obj v_2314121_25 = PRIM_CAR(v_l);
-Obj v_2314122_25 = makeCons(co->gc, v_2314121_25, v_res);
-Obj v_2314123_25 = PRIM_CDR(v_l);
+if (True == v_2314143_25) {
+Obj v_2314144_25 = PRIM_CAR(v_l);
+Obj v_2314145_25 = makeCons(co->gc, v_2314144_25, v_res);
+Obj v_2314146_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2314122_25, v_fn, v_2314123_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_2314145_25, v_fn, v_2314146_25);
 return;
 } else {
-Obj v_2314124_25 = PRIM_CDR(v_l);
+Obj v_2314147_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2314124_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v_2314147_25);
 return;
 }
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2488,28 +2517,28 @@ return;
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v_2314113_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2314113_25) {
+Obj v_2314136_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2314136_25) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v_2314114_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v_2314115_25 = PRIM_CDR(v_l);
+Obj v_2314137_25 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v_2314138_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2314114_25, v_2314115_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v_2314137_25, v_2314138_25);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2517,40 +2546,40 @@ Obj v_res = R[1];
 Obj v_rules = R[2];
 R[1] = v_res;
 R[2] = v_rules;
-saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
+saveCont(co, clofun56, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
 return;
 }
 case 1:
 {
-Obj v_2314111_25= co->res;
-Obj v_2314110_25 = R[1];
+Obj v_2314134_25= co->res;
+Obj v_2314133_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2314110_25, v_2314111_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v_2314133_25, v_2314134_25);
 return;
 }
 case 2:
 {
-Obj v_2314108_25= co->res;
+Obj v_2314131_25= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v_2314108_25) {
+if (True == v_2314131_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 } else {
-Obj v_2314109_25 = PRIM_CAR(v_rules);
-Obj v_2314110_25 = makeCons(co->gc, v_2314109_25, v_res);
-R[1] = v_2314110_25;
-saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
+Obj v_2314132_25 = PRIM_CAR(v_rules);
+Obj v_2314133_25 = makeCons(co->gc, v_2314132_25, v_res);
+R[1] = v_2314133_25;
+saveCont(co, clofun56, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_rules);
 return;
 }
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2562,195 +2591,195 @@ return;
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v_2314055_25 = PRIM_EQ(Nil, v_input);
-if (True == v_2314055_25) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
-return;
-} else {
-Obj v_2313608_25 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v_2314073_25 = PRIM_ISCONS(v_input);
-if (True == v_2314073_25) {
-Obj v_2314074_25 = PRIM_CAR(v_input);
-Obj v_2314075_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2314074_25);
-if (True == v_2314075_25) {
-Obj v_2314076_25 = PRIM_CDR(v_input);
-Obj v_2314077_25 = PRIM_ISCONS(v_2314076_25);
-if (True == v_2314077_25) {
-Obj v_2314078_25 = PRIM_CDR(v_input);
-Obj v_2314079_25 = PRIM_CAR(v_2314078_25);
-Obj v_act = v_2314079_25;
-Obj v_2314080_25 = PRIM_CDR(v_input);
-Obj v_2314081_25 = PRIM_CDR(v_2314080_25);
-Obj v_2314082_25 = PRIM_ISCONS(v_2314081_25);
-if (True == v_2314082_25) {
-Obj v_2314083_25 = PRIM_CDR(v_input);
-Obj v_2314084_25 = PRIM_CDR(v_2314083_25);
-Obj v_2314085_25 = PRIM_CAR(v_2314084_25);
-Obj v_2314086_25 = PRIM_EQ(getBinding(co, packageID, 110).name, v_2314085_25);
-if (True == v_2314086_25) {
-Obj v_2314087_25 = PRIM_CDR(v_input);
-Obj v_2314088_25 = PRIM_CDR(v_2314087_25);
-Obj v_2314089_25 = PRIM_CDR(v_2314088_25);
-Obj v_2314090_25 = PRIM_ISCONS(v_2314089_25);
-if (True == v_2314090_25) {
-Obj v_2314091_25 = PRIM_CDR(v_input);
-Obj v_2314092_25 = PRIM_CDR(v_2314091_25);
-Obj v_2314093_25 = PRIM_CDR(v_2314092_25);
-Obj v_2314094_25 = PRIM_CAR(v_2314093_25);
-Obj v_pred = v_2314094_25;
-Obj v_2314095_25 = PRIM_CDR(v_input);
-Obj v_2314096_25 = PRIM_CDR(v_2314095_25);
-Obj v_2314097_25 = PRIM_CDR(v_2314096_25);
-Obj v_2314098_25 = PRIM_CDR(v_2314097_25);
-Obj v_remain = v_2314098_25;
+Obj v_2314078_25 = PRIM_EQ(Nil, v_input);
+if (True == v_2314078_25) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_result);
+return;
+} else {
+Obj v_2313611_25 = makeNative(co->gc, 3, clofun53, 0, 3, v_input, v_current, v_result);
+Obj v_2314096_25 = PRIM_ISCONS(v_input);
+if (True == v_2314096_25) {
+Obj v_2314097_25 = PRIM_CAR(v_input);
+Obj v_2314098_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2314097_25);
+if (True == v_2314098_25) {
+Obj v_2314099_25 = PRIM_CDR(v_input);
+Obj v_2314100_25 = PRIM_ISCONS(v_2314099_25);
+if (True == v_2314100_25) {
+Obj v_2314101_25 = PRIM_CDR(v_input);
+Obj v_2314102_25 = PRIM_CAR(v_2314101_25);
+Obj v_act = v_2314102_25;
+Obj v_2314103_25 = PRIM_CDR(v_input);
+Obj v_2314104_25 = PRIM_CDR(v_2314103_25);
+Obj v_2314105_25 = PRIM_ISCONS(v_2314104_25);
+if (True == v_2314105_25) {
+Obj v_2314106_25 = PRIM_CDR(v_input);
+Obj v_2314107_25 = PRIM_CDR(v_2314106_25);
+Obj v_2314108_25 = PRIM_CAR(v_2314107_25);
+Obj v_2314109_25 = PRIM_EQ(getBinding(co, packageID, 111).name, v_2314108_25);
+if (True == v_2314109_25) {
+Obj v_2314110_25 = PRIM_CDR(v_input);
+Obj v_2314111_25 = PRIM_CDR(v_2314110_25);
+Obj v_2314112_25 = PRIM_CDR(v_2314111_25);
+Obj v_2314113_25 = PRIM_ISCONS(v_2314112_25);
+if (True == v_2314113_25) {
+Obj v_2314114_25 = PRIM_CDR(v_input);
+Obj v_2314115_25 = PRIM_CDR(v_2314114_25);
+Obj v_2314116_25 = PRIM_CDR(v_2314115_25);
+Obj v_2314117_25 = PRIM_CAR(v_2314116_25);
+Obj v_pred = v_2314117_25;
+Obj v_2314118_25 = PRIM_CDR(v_input);
+Obj v_2314119_25 = PRIM_CDR(v_2314118_25);
+Obj v_2314120_25 = PRIM_CDR(v_2314119_25);
+Obj v_2314121_25 = PRIM_CDR(v_2314120_25);
+Obj v_remain = v_2314121_25;
 R[1] = v_act;
 R[2] = v_pred;
 R[3] = v_result;
 R[4] = v_remain;
-saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
+saveCont(co, clofun54, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313608_25);
+coraCall0(co, v_2313611_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313608_25);
+coraCall0(co, v_2313611_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313608_25);
+coraCall0(co, v_2313611_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313608_25);
+coraCall0(co, v_2313611_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313608_25);
+coraCall0(co, v_2313611_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313608_25);
+coraCall0(co, v_2313611_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2314099_25= co->res;
+Obj v_2314122_25= co->res;
 Obj v_act = R[1];
 Obj v_pred = R[2];
 Obj v_result = R[3];
 Obj v_remain = R[4];
-Obj v_2314100_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314099_25);
-Obj v_pat = v_2314100_25;
-Obj v_2314101_25 = makeCons(co->gc, v_act, Nil);
-Obj v_2314102_25 = makeCons(co->gc, v_pred, v_2314101_25);
-Obj v_2314103_25 = makeCons(co->gc, getBinding(co, packageID, 110).name, v_2314102_25);
-Obj v_2314104_25 = makeCons(co->gc, v_pat, v_result);
-Obj v_2314105_25 = makeCons(co->gc, v_2314103_25, v_2314104_25);
+Obj v_2314123_25 = makeCons(co->gc, getBinding(co, packageID, 136).name, v_2314122_25);
+Obj v_pat = v_2314123_25;
+Obj v_2314124_25 = makeCons(co->gc, v_act, Nil);
+Obj v_2314125_25 = makeCons(co->gc, v_pred, v_2314124_25);
+Obj v_2314126_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2314125_25);
+Obj v_2314127_25 = makeCons(co->gc, v_pat, v_result);
+Obj v_2314128_25 = makeCons(co->gc, v_2314126_25, v_2314127_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314105_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314128_25);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313609_25 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2314060_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314060_25) {
-Obj v_2314061_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2314062_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2314061_25);
-if (True == v_2314062_25) {
-Obj v_2314063_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314064_25 = PRIM_ISCONS(v_2314063_25);
-if (True == v_2314064_25) {
-Obj v_2314065_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314066_25 = PRIM_CAR(v_2314065_25);
-Obj v_act = v_2314066_25;
-Obj v_2314067_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2314068_25 = PRIM_CDR(v_2314067_25);
-Obj v_remain = v_2314068_25;
+Obj v_2313612_25 = makeNative(co->gc, 1, clofun52, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2314083_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314083_25) {
+Obj v_2314084_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2314085_25 = PRIM_EQ(getBinding(co, packageID, 105).name, v_2314084_25);
+if (True == v_2314085_25) {
+Obj v_2314086_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314087_25 = PRIM_ISCONS(v_2314086_25);
+if (True == v_2314087_25) {
+Obj v_2314088_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314089_25 = PRIM_CAR(v_2314088_25);
+Obj v_act = v_2314089_25;
+Obj v_2314090_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2314091_25 = PRIM_CDR(v_2314090_25);
+Obj v_remain = v_2314091_25;
 R[1] = v_act;
 R[2] = v_remain;
-saveCont(co, clofun47, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+saveCont(co, clofun53, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313609_25);
+coraCall0(co, v_2313612_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313609_25);
+coraCall0(co, v_2313612_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2313609_25);
+coraCall0(co, v_2313612_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2314069_25= co->res;
+Obj v_2314092_25= co->res;
 Obj v_act = R[1];
 Obj v_remain = R[2];
-Obj v_2314070_25 = makeCons(co->gc, getBinding(co, packageID, 135).name, v_2314069_25);
-Obj v_pat = v_2314070_25;
-Obj v_2314071_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
-Obj v_2314072_25 = makeCons(co->gc, v_act, v_2314071_25);
+Obj v_2314093_25 = makeCons(co->gc, getBinding(co, packageID, 136).name, v_2314092_25);
+Obj v_pat = v_2314093_25;
+Obj v_2314094_25 = makeCons(co->gc, v_pat, closureRef(R[0], 2));
+Obj v_2314095_25 = makeCons(co->gc, v_act, v_2314094_25);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314072_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_remain, Nil, v_2314095_25);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2314056_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2314056_25) {
-Obj v_2314057_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2314057_25;
-Obj v_2314058_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2314058_25;
-Obj v_2314059_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
+Obj v_2314079_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2314079_25) {
+Obj v_2314080_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2314080_25;
+Obj v_2314081_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2314081_25;
+Obj v_2314082_25 = makeCons(co->gc, v_x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2314059_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2314082_25, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2762,91 +2791,261 @@ return;
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun50, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2314042_25= co->res;
-Obj v_value = R[1];
-Obj v_rules = v_2314042_25;
-Obj v_2313704_25 = makeNative(co->gc, 2, clofun43, 1, 2, v_value, v_rules);
-Obj v_2314049_25 = PRIM_ISCONS(v_value);
-if (True == v_2314049_25) {
-Obj v_2314050_25 = PRIM_CAR(v_value);
-Obj v_2314051_25 = PRIM_EQ(getBinding(co, packageID, 152).name, v_2314050_25);
-Obj v_2314052_25 = primNot(v_2314051_25);
-if (True == v_2314052_25) {
+Obj v_2314074_25= co->res;
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2313704_25, True);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_2314074_25, makeNative(co->gc, 2, clofun49, 1, 1, v_exp));
 return;
-} else {
+}
+case 2:
+{
+Obj v_2314073_25= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
+saveCont(co, clofun50, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v_2314073_25);
+return;
+}
+}
+}
+
+static void clofun49(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_val = R[1];
+R[1] = v_val;
+saveCont(co, clofun49, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), closureRef(R[0], 0));
+return;
+}
+case 1:
+{
+Obj v_2314075_25= co->res;
+Obj v_val = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2313704_25, False);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v_val, v_2314075_25);
+return;
+}
+}
+}
+
+static void clofun48(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_value = R[1];
+Obj v_k = R[2];
+Obj v_2313707_25 = makeNative(co->gc, 2, clofun46, 1, 2, v_k, v_value);
+Obj v_2314064_25 = PRIM_ISCONS(v_value);
+if (True == v_2314064_25) {
+Obj v_2313715_25 = makeNative(co->gc, 2, clofun47, 1, 0);
+Obj v_2314065_25 = PRIM_CAR(v_value);
+Obj v_2314066_25 = PRIM_EQ(v_2314065_25, getBinding(co, packageID, 153).name);
+if (True == v_2314066_25) {
+R[1] = v_2313715_25;
+R[2] = v_2313707_25;
+saveCont(co, clofun48, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_value);
+return;
+} else {
+R[1] = v_2313707_25;
+saveCont(co, clofun48, 5, R);
+coraCall1(co, v_2313715_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313704_25, False);
+coraCall1(co, v_2313707_25, False);
 return;
 }
 }
+case 1:
+{
+Obj v_2314069_25= co->res;
+Obj v_2313707_25 = R[1];
+co->ctx.sp = R;
+coraCall1(co, v_2313707_25, v_2314069_25);
+return;
+}
 case 2:
 {
-Obj v_2314041_25= co->res;
-Obj v_exp = R[1];
-Obj v_value = v_2314041_25;
-R[1] = v_value;
-saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+Obj v_2314070_25= co->res;
+Obj v_2313707_25 = R[1];
+co->ctx.sp = R;
+coraCall1(co, v_2313707_25, v_2314070_25);
 return;
 }
 case 3:
 {
-Obj v_2314040_25= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
-saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_2314040_25);
+Obj v_2314068_25= co->res;
+Obj v_2313715_25 = R[1];
+Obj v_2313707_25 = R[2];
+if (True == v_2314068_25) {
+R[1] = v_2313707_25;
+saveCont(co, clofun48, 1, R);
+coraCall1(co, v_2313715_25, True);
+return;
+} else {
+R[1] = v_2313707_25;
+saveCont(co, clofun48, 2, R);
+coraCall1(co, v_2313715_25, False);
+return;
+}
+}
+case 4:
+{
+Obj v_2314067_25= co->res;
+Obj v_2313715_25 = R[1];
+Obj v_2313707_25 = R[2];
+R[1] = v_2313715_25;
+R[2] = v_2313707_25;
+saveCont(co, clofun48, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_2314067_25);
+return;
+}
+case 5:
+{
+Obj v_2314071_25= co->res;
+Obj v_2313707_25 = R[1];
+co->ctx.sp = R;
+coraCall1(co, v_2313707_25, v_2314071_25);
 return;
 }
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_2313716_25 = R[1];
+if (True == v_2313716_25) {
+coraReturn(co, True);
+return;
+} else {
+coraReturn(co, False);
+return;
+}
+}
+}
+}
+
+static void clofun46(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_2313708_25 = R[1];
+if (True == v_2313708_25) {
+saveCont(co, clofun46, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
+return;
+} else {
+Obj v_2313712_25 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2314062_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2314062_25) {
+co->ctx.sp = R;
+coraCall1(co, v_2313712_25, True);
+return;
+} else {
+Obj v_2314063_25 = primIsSymbol(closureRef(R[0], 1));
+if (True == v_2314063_25) {
+co->ctx.sp = R;
+coraCall1(co, v_2313712_25, True);
+return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, v_2313712_25, False);
+return;
+}
+}
+}
+}
+case 1:
+{
+Obj v_2314051_25= co->res;
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_2314051_25, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
+return;
+}
+}
+}
+
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313705_25 = R[1];
-if (True == v_2313705_25) {
-Obj v_2314043_25 = primGenSym(co);
-Obj v_val = v_2314043_25;
+Obj v_2313713_25 = R[1];
+if (True == v_2313713_25) {
+Obj v_2314056_25 = primGenSym(co);
+Obj v_val = v_2314056_25;
 R[1] = v_val;
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_val, closureRef(R[0], 1));
+saveCont(co, clofun45, 1, R);
+coraCall1(co, closureRef(R[0], 0), v_val);
 return;
 } else {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall1(co, closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v_2314044_25= co->res;
+Obj v_2314057_25= co->res;
 Obj v_val = R[1];
-Obj v_2314045_25 = makeCons(co->gc, v_2314044_25, Nil);
-Obj v_2314046_25 = makeCons(co->gc, closureRef(R[0], 0), v_2314045_25);
-Obj v_2314047_25 = makeCons(co->gc, v_val, v_2314046_25);
-Obj v_2314048_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314047_25);
-coraReturn(co, v_2314048_25);
+Obj v_2314058_25 = makeCons(co->gc, v_2314057_25, Nil);
+Obj v_2314059_25 = makeCons(co->gc, closureRef(R[0], 1), v_2314058_25);
+Obj v_2314060_25 = makeCons(co->gc, v_val, v_2314059_25);
+Obj v_2314061_25 = makeCons(co->gc, getBinding(co, packageID, 130).name, v_2314060_25);
+coraReturn(co, v_2314061_25);
+return;
+}
+}
+}
+
+static void clofun44(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_hd = R[1];
+R[1] = v_hd;
+saveCont(co, clofun44, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 0));
+return;
+}
+case 1:
+{
+Obj v_2314052_25= co->res;
+Obj v_hd = R[1];
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v_2314052_25, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v_hd));
+return;
+}
+}
+}
+
+static void clofun43(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_tl = R[1];
+Obj v_2314053_25 = makeCons(co->gc, v_tl, Nil);
+Obj v_2314054_25 = makeCons(co->gc, closureRef(R[0], 1), v_2314053_25);
+Obj v_2314055_25 = makeCons(co->gc, getBinding(co, packageID, 153).name, v_2314054_25);
+co->ctx.sp = R;
+coraCall1(co, closureRef(R[0], 0), v_2314055_25);
 return;
 }
 }
@@ -2861,56 +3060,56 @@ Obj v_rules = R[2];
 R[1] = v_value;
 R[2] = v_rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
 return;
 }
 case 1:
 {
-Obj v_2314038_25= co->res;
-Obj v_2313700_25 = R[1];
-if (True == v_2314038_25) {
+Obj v_2314049_25= co->res;
+Obj v_2313703_25 = R[1];
+if (True == v_2314049_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313700_25, True);
+coraCall1(co, v_2313703_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313700_25, False);
+coraCall1(co, v_2313703_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2314036_25= co->res;
+Obj v_2314047_25= co->res;
 Obj v_rules = R[1];
-Obj v_2313700_25 = R[2];
-if (True == v_2314036_25) {
-Obj v_2314037_25 = PRIM_CDR(v_rules);
-R[1] = v_2313700_25;
+Obj v_2313703_25 = R[2];
+if (True == v_2314047_25) {
+Obj v_2314048_25 = PRIM_CDR(v_rules);
+R[1] = v_2313703_25;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_2314037_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_2314048_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313700_25, False);
+coraCall1(co, v_2313703_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2314018_25= co->res;
+Obj v_2314029_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v_2314018_25) {
-Obj v_2314019_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v_2314020_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2314019_25);
-coraReturn(co, v_2314020_25);
+if (True == v_2314029_25) {
+Obj v_2314030_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2314031_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2314030_25);
+coraReturn(co, v_2314031_25);
 return;
 } else {
-Obj v_2313700_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v_2313703_25 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v_2313700_25;
+R[2] = v_2313703_25;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_rules);
 return;
 }
 }
@@ -2921,72 +3120,72 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313701_25 = R[1];
-if (True == v_2313701_25) {
-Obj v_2314021_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_pat = v_2314021_25;
-Obj v_2314022_25 = primGenSym(co);
-Obj v_cc = v_2314022_25;
+Obj v_2313704_25 = R[1];
+if (True == v_2313704_25) {
+Obj v_2314032_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_pat = v_2314032_25;
+Obj v_2314033_25 = primGenSym(co);
+Obj v_cc = v_2314033_25;
 R[1] = v_pat;
 R[2] = v_cc;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v_cc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v_cc);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 case 1:
 {
-Obj v_2314028_25= co->res;
+Obj v_2314039_25= co->res;
 Obj v_curr = R[1];
 Obj v_cc = R[2];
-Obj v_rest = v_2314028_25;
-Obj v_2314029_25 = makeCons(co->gc, v_rest, Nil);
-Obj v_2314030_25 = makeCons(co->gc, Nil, v_2314029_25);
-Obj v_2314031_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2314030_25);
-Obj v_2314032_25 = makeCons(co->gc, v_curr, Nil);
-Obj v_2314033_25 = makeCons(co->gc, v_2314031_25, v_2314032_25);
-Obj v_2314034_25 = makeCons(co->gc, v_cc, v_2314033_25);
-Obj v_2314035_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2314034_25);
-coraReturn(co, v_2314035_25);
+Obj v_rest = v_2314039_25;
+Obj v_2314040_25 = makeCons(co->gc, v_rest, Nil);
+Obj v_2314041_25 = makeCons(co->gc, Nil, v_2314040_25);
+Obj v_2314042_25 = makeCons(co->gc, getBinding(co, packageID, 141).name, v_2314041_25);
+Obj v_2314043_25 = makeCons(co->gc, v_curr, Nil);
+Obj v_2314044_25 = makeCons(co->gc, v_2314042_25, v_2314043_25);
+Obj v_2314045_25 = makeCons(co->gc, v_cc, v_2314044_25);
+Obj v_2314046_25 = makeCons(co->gc, getBinding(co, packageID, 130).name, v_2314045_25);
+coraReturn(co, v_2314046_25);
 return;
 }
 case 2:
 {
-Obj v_2314025_25= co->res;
+Obj v_2314036_25= co->res;
 Obj v_cc = R[1];
-Obj v_curr = v_2314025_25;
-Obj v_2314026_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2314027_25 = PRIM_CDR(v_2314026_25);
+Obj v_curr = v_2314036_25;
+Obj v_2314037_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2314038_25 = PRIM_CDR(v_2314037_25);
 R[1] = v_curr;
 R[2] = v_cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v_2314027_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v_2314038_25);
 return;
 }
 case 3:
 {
-Obj v_2314024_25= co->res;
+Obj v_2314035_25= co->res;
 Obj v_action = R[1];
 Obj v_cc = R[2];
 R[1] = v_cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v_2314024_25, closureRef(R[0], 0), v_action, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_2314035_25, closureRef(R[0], 0), v_action, v_cc);
 return;
 }
 case 4:
 {
-Obj v_2314023_25= co->res;
+Obj v_2314034_25= co->res;
 Obj v_pat = R[1];
 Obj v_cc = R[2];
-Obj v_action = v_2314023_25;
+Obj v_action = v_2314034_25;
 R[1] = v_action;
 R[2] = v_cc;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v_pat);
 return;
 }
 }
@@ -2998,36 +3197,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v_2314005_25 = PRIM_CDR(v_rules);
-Obj v_2314006_25 = PRIM_CAR(v_2314005_25);
-Obj v_action = v_2314006_25;
-Obj v_2313696_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
+Obj v_2314016_25 = PRIM_CDR(v_rules);
+Obj v_2314017_25 = PRIM_CAR(v_2314016_25);
+Obj v_action = v_2314017_25;
+Obj v_2313699_25 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v_action);
 R[1] = v_action;
-R[2] = v_2313696_25;
+R[2] = v_2313699_25;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_action);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_action);
 return;
 }
 case 1:
 {
-Obj v_2314014_25= co->res;
+Obj v_2314025_25= co->res;
 Obj v_action = R[1];
-Obj v_2313696_25 = R[2];
-if (True == v_2314014_25) {
-Obj v_2314015_25 = PRIM_CAR(v_action);
-Obj v_2314016_25 = PRIM_EQ(v_2314015_25, getBinding(co, packageID, 110).name);
-if (True == v_2314016_25) {
+Obj v_2313699_25 = R[2];
+if (True == v_2314025_25) {
+Obj v_2314026_25 = PRIM_CAR(v_action);
+Obj v_2314027_25 = PRIM_EQ(v_2314026_25, getBinding(co, packageID, 111).name);
+if (True == v_2314027_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313696_25, True);
+coraCall1(co, v_2313699_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313696_25, False);
+coraCall1(co, v_2313699_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313696_25, False);
+coraCall1(co, v_2313699_25, False);
 return;
 }
 }
@@ -3038,10 +3237,10 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313697_25 = R[1];
-if (True == v_2313697_25) {
+Obj v_2313700_25 = R[1];
+if (True == v_2313700_25) {
 saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -3050,22 +3249,22 @@ return;
 }
 case 1:
 {
-Obj v_2314008_25= co->res;
-Obj v_2314007_25 = R[1];
-Obj v_2314009_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2314010_25 = makeCons(co->gc, v_2314009_25, Nil);
-Obj v_2314011_25 = makeCons(co->gc, v_2314008_25, v_2314010_25);
-Obj v_2314012_25 = makeCons(co->gc, v_2314007_25, v_2314011_25);
-Obj v_2314013_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2314012_25);
-coraReturn(co, v_2314013_25);
+Obj v_2314019_25= co->res;
+Obj v_2314018_25 = R[1];
+Obj v_2314020_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2314021_25 = makeCons(co->gc, v_2314020_25, Nil);
+Obj v_2314022_25 = makeCons(co->gc, v_2314019_25, v_2314021_25);
+Obj v_2314023_25 = makeCons(co->gc, v_2314018_25, v_2314022_25);
+Obj v_2314024_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2314023_25);
+coraReturn(co, v_2314024_25);
 return;
 }
 case 2:
 {
-Obj v_2314007_25= co->res;
-R[1] = v_2314007_25;
+Obj v_2314018_25= co->res;
+R[1] = v_2314018_25;
 saveCont(co, clofun39, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
 }
 }
@@ -3089,83 +3288,83 @@ return;
 }
 case 1:
 {
-Obj v_2314003_25= co->res;
+Obj v_2314014_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v_2314003_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v_2314014_25);
 return;
 }
 case 2:
 {
-Obj v_2313990_25= co->res;
+Obj v_2314001_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2313990_25) {
-Obj v_2313991_25 = PRIM_CAR(v_pat);
-Obj v_2313992_25 = PRIM_EQ(v_2313991_25, getBinding(co, packageID, 139).name);
-if (True == v_2313992_25) {
-Obj v_2313993_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2313994_25 = makeCons(co->gc, v_pat, v_2313993_25);
-Obj v_2313995_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313994_25);
-Obj v_2313996_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2313997_25 = makeCons(co->gc, v_2313996_25, Nil);
-Obj v_2313998_25 = makeCons(co->gc, v_body, v_2313997_25);
-Obj v_2313999_25 = makeCons(co->gc, v_2313995_25, v_2313998_25);
-Obj v_2314000_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313999_25);
-coraReturn(co, v_2314000_25);
+if (True == v_2314001_25) {
+Obj v_2314002_25 = PRIM_CAR(v_pat);
+Obj v_2314003_25 = PRIM_EQ(v_2314002_25, getBinding(co, packageID, 140).name);
+if (True == v_2314003_25) {
+Obj v_2314004_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2314005_25 = makeCons(co->gc, v_pat, v_2314004_25);
+Obj v_2314006_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314005_25);
+Obj v_2314007_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2314008_25 = makeCons(co->gc, v_2314007_25, Nil);
+Obj v_2314009_25 = makeCons(co->gc, v_body, v_2314008_25);
+Obj v_2314010_25 = makeCons(co->gc, v_2314006_25, v_2314009_25);
+Obj v_2314011_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2314010_25);
+coraReturn(co, v_2314011_25);
 return;
 } else {
-Obj v_2314001_25 = PRIM_CAR(v_pat);
-Obj v_2314002_25 = PRIM_EQ(v_2314001_25, getBinding(co, packageID, 152).name);
-if (True == v_2314002_25) {
+Obj v_2314012_25 = PRIM_CAR(v_pat);
+Obj v_2314013_25 = PRIM_EQ(v_2314012_25, getBinding(co, packageID, 153).name);
+if (True == v_2314013_25) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v_pat, v_expr, v_body, v_cc);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v_pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v_pat);
 return;
 }
 }
 case 3:
 {
-Obj v_2313975_25= co->res;
+Obj v_2313986_25= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v_2313975_25) {
-Obj v_2313976_25 = PRIM_EQ(v_pat, v_expr);
-if (True == v_2313976_25) {
+if (True == v_2313986_25) {
+Obj v_2313987_25 = PRIM_EQ(v_pat, v_expr);
+if (True == v_2313987_25) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v_2313977_25 = makeCons(co->gc, v_expr, Nil);
-Obj v_2313978_25 = makeCons(co->gc, v_pat, v_2313977_25);
-Obj v_2313979_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2313978_25);
-Obj v_2313980_25 = makeCons(co->gc, v_cc, Nil);
-Obj v_2313981_25 = makeCons(co->gc, v_2313980_25, Nil);
-Obj v_2313982_25 = makeCons(co->gc, v_body, v_2313981_25);
-Obj v_2313983_25 = makeCons(co->gc, v_2313979_25, v_2313982_25);
-Obj v_2313984_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313983_25);
-coraReturn(co, v_2313984_25);
+Obj v_2313988_25 = makeCons(co->gc, v_expr, Nil);
+Obj v_2313989_25 = makeCons(co->gc, v_pat, v_2313988_25);
+Obj v_2313990_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313989_25);
+Obj v_2313991_25 = makeCons(co->gc, v_cc, Nil);
+Obj v_2313992_25 = makeCons(co->gc, v_2313991_25, Nil);
+Obj v_2313993_25 = makeCons(co->gc, v_body, v_2313992_25);
+Obj v_2313994_25 = makeCons(co->gc, v_2313990_25, v_2313993_25);
+Obj v_2313995_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313994_25);
+coraReturn(co, v_2313995_25);
 return;
 }
 } else {
-Obj v_2313985_25 = primIsSymbol(v_pat);
-if (True == v_2313985_25) {
-Obj v_2313986_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2313987_25 = makeCons(co->gc, v_expr, v_2313986_25);
-Obj v_2313988_25 = makeCons(co->gc, v_pat, v_2313987_25);
-Obj v_2313989_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313988_25);
-coraReturn(co, v_2313989_25);
+Obj v_2313996_25 = primIsSymbol(v_pat);
+if (True == v_2313996_25) {
+Obj v_2313997_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2313998_25 = makeCons(co->gc, v_expr, v_2313997_25);
+Obj v_2313999_25 = makeCons(co->gc, v_pat, v_2313998_25);
+Obj v_2314000_25 = makeCons(co->gc, getBinding(co, packageID, 130).name, v_2313999_25);
+coraReturn(co, v_2314000_25);
 return;
 } else {
 R[1] = v_expr;
@@ -3173,7 +3372,7 @@ R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_pat;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_pat);
 return;
 }
 }
@@ -3188,17 +3387,17 @@ case 0:
 Obj v_x = R[1];
 R[1] = v_x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v_x);
 return;
 }
 case 1:
 {
-Obj v_2313972_25= co->res;
+Obj v_2313983_25= co->res;
 Obj v_x = R[1];
-if (True == v_2313972_25) {
-Obj v_2313973_25 = primIsSymbol(v_x);
-Obj v_2313974_25 = primNot(v_2313973_25);
-if (True == v_2313974_25) {
+if (True == v_2313983_25) {
+Obj v_2313984_25 = primIsSymbol(v_x);
+Obj v_2313985_25 = primNot(v_2313984_25);
+if (True == v_2313985_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3226,51 +3425,51 @@ R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_pat);
 return;
 }
 case 1:
 {
-Obj v_2313951_25= co->res;
+Obj v_2313962_25= co->res;
 Obj v_x = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_y = v_2313951_25;
-Obj v_2313690_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
-Obj v_2313968_25 = PRIM_ISCONS(v_expr);
-if (True == v_2313968_25) {
-Obj v_2313969_25 = PRIM_CAR(v_expr);
-Obj v_2313970_25 = PRIM_EQ(v_2313969_25, getBinding(co, packageID, 152).name);
-if (True == v_2313970_25) {
+Obj v_y = v_2313962_25;
+Obj v_2313693_25 = makeNative(co->gc, 3, clofun35, 1, 5, v_x, v_y, v_expr, v_body, v_cc);
+Obj v_2313979_25 = PRIM_ISCONS(v_expr);
+if (True == v_2313979_25) {
+Obj v_2313980_25 = PRIM_CAR(v_expr);
+Obj v_2313981_25 = PRIM_EQ(v_2313980_25, getBinding(co, packageID, 153).name);
+if (True == v_2313981_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313690_25, True);
+coraCall1(co, v_2313693_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313690_25, False);
+coraCall1(co, v_2313693_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313690_25, False);
+coraCall1(co, v_2313693_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2313950_25= co->res;
+Obj v_2313961_25= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v_x = v_2313950_25;
+Obj v_x = v_2313961_25;
 R[1] = v_x;
 R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_pat);
 return;
 }
 }
@@ -3280,72 +3479,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313691_25 = R[1];
-if (True == v_2313691_25) {
+Obj v_2313694_25 = R[1];
+if (True == v_2313694_25) {
 saveCont(co, clofun35, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2313955_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313956_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313955_25);
-Obj v_2313957_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313958_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313957_25);
-Obj v_2313959_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2313960_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2313959_25);
-R[1] = v_2313958_25;
-R[2] = v_2313956_25;
+Obj v_2313966_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313967_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2313966_25);
+Obj v_2313968_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313969_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2313968_25);
+Obj v_2313970_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2313971_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2313970_25);
+R[1] = v_2313969_25;
+R[2] = v_2313967_25;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_2313960_25, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v_2313971_25, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v_2313954_25= co->res;
+Obj v_2313965_25= co->res;
 Obj v_e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_e1, v_2313954_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v_e1, v_2313965_25, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v_2313953_25= co->res;
+Obj v_2313964_25= co->res;
 Obj v_e1 = R[1];
-Obj v_e2 = v_2313953_25;
+Obj v_e2 = v_2313964_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v_e2, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2313952_25= co->res;
-Obj v_e1 = v_2313952_25;
+Obj v_2313963_25= co->res;
+Obj v_e1 = v_2313963_25;
 R[1] = v_e1;
 saveCont(co, clofun35, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v_2313962_25= co->res;
-Obj v_2313956_25 = R[1];
-Obj v_2313963_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2313964_25 = makeCons(co->gc, v_2313963_25, Nil);
-Obj v_2313965_25 = makeCons(co->gc, v_2313962_25, v_2313964_25);
-Obj v_2313966_25 = makeCons(co->gc, v_2313956_25, v_2313965_25);
-Obj v_2313967_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313966_25);
-coraReturn(co, v_2313967_25);
+Obj v_2313973_25= co->res;
+Obj v_2313967_25 = R[1];
+Obj v_2313974_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2313975_25 = makeCons(co->gc, v_2313974_25, Nil);
+Obj v_2313976_25 = makeCons(co->gc, v_2313973_25, v_2313975_25);
+Obj v_2313977_25 = makeCons(co->gc, v_2313967_25, v_2313976_25);
+Obj v_2313978_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313977_25);
+coraReturn(co, v_2313978_25);
 return;
 }
 case 5:
 {
-Obj v_2313961_25= co->res;
-Obj v_2313958_25 = R[1];
-Obj v_2313956_25 = R[2];
-R[1] = v_2313956_25;
+Obj v_2313972_25= co->res;
+Obj v_2313969_25 = R[1];
+Obj v_2313967_25 = R[2];
+R[1] = v_2313967_25;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v_2313958_25, v_2313961_25, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v_2313969_25, v_2313972_25, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3555,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313948_25 = PRIM_CDR(v_exp);
+Obj v_2313959_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313948_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313959_25);
 return;
 }
 }
@@ -3369,36 +3568,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v_2313938_25 = PRIM_CDR(v_pat);
+Obj v_2313949_25 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313938_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_2313949_25);
 return;
 }
 case 1:
 {
-Obj v_2313943_25= co->res;
-Obj v_2313941_25 = R[1];
-Obj v_2313944_25 = makeCons(co->gc, v_2313943_25, Nil);
-Obj v_2313945_25 = makeCons(co->gc, v_2313941_25, v_2313944_25);
-Obj v_2313946_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313945_25);
-coraReturn(co, v_2313946_25);
+Obj v_2313954_25= co->res;
+Obj v_2313952_25 = R[1];
+Obj v_2313955_25 = makeCons(co->gc, v_2313954_25, Nil);
+Obj v_2313956_25 = makeCons(co->gc, v_2313952_25, v_2313955_25);
+Obj v_2313957_25 = makeCons(co->gc, getBinding(co, packageID, 153).name, v_2313956_25);
+coraReturn(co, v_2313957_25);
 return;
 }
 case 2:
 {
-Obj v_2313939_25= co->res;
+Obj v_2313950_25= co->res;
 Obj v_pat = R[1];
-if (True == v_2313939_25) {
-Obj v_2313940_25 = PRIM_CAR(v_pat);
-coraReturn(co, v_2313940_25);
+if (True == v_2313950_25) {
+Obj v_2313951_25 = PRIM_CAR(v_pat);
+coraReturn(co, v_2313951_25);
 return;
 } else {
-Obj v_2313941_25 = PRIM_CAR(v_pat);
-Obj v_2313942_25 = PRIM_CDR(v_pat);
-R[1] = v_2313941_25;
+Obj v_2313952_25 = PRIM_CAR(v_pat);
+Obj v_2313953_25 = PRIM_CDR(v_pat);
+R[1] = v_2313952_25;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v_2313942_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v_2313953_25);
 return;
 }
 }
@@ -3410,13 +3609,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313935_25 = PRIM_EQ(v_x, True);
-if (True == v_2313935_25) {
+Obj v_2313946_25 = PRIM_EQ(v_x, True);
+if (True == v_2313946_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313936_25 = PRIM_EQ(v_x, False);
-if (True == v_2313936_25) {
+Obj v_2313947_25 = PRIM_EQ(v_x, False);
+if (True == v_2313947_25) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3632,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313933_25 = PRIM_CDR(v_exp);
+Obj v_2313944_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313933_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v_2313944_25);
 return;
 }
 }
@@ -3446,55 +3645,48 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2313921_25 = PRIM_EQ(Nil, v_l);
-if (True == v_2313921_25) {
+Obj v_2313933_25 = PRIM_EQ(Nil, v_l);
+if (True == v_2313933_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313922_25 = PRIM_CAR(v_l);
-Obj v_2313923_25 = PRIM_EQ(v_2313922_25, False);
-if (True == v_2313923_25) {
+Obj v_2313934_25 = PRIM_CAR(v_l);
+Obj v_2313935_25 = PRIM_EQ(v_2313934_25, False);
+if (True == v_2313935_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313924_25 = PRIM_CDR(v_l);
-R[1] = v_l;
+Obj v_2313936_25 = PRIM_CAR(v_l);
+Obj v_2313937_25 = PRIM_CDR(v_l);
+R[1] = v_2313936_25;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v_2313924_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v_2313937_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313925_25= co->res;
-Obj v_l = R[1];
-Obj v_more = v_2313925_25;
-Obj v_2313926_25 = PRIM_EQ(v_more, False);
-if (True == v_2313926_25) {
-coraReturn(co, False);
-return;
-} else {
-Obj v_2313927_25 = PRIM_CAR(v_l);
-Obj v_2313928_25 = makeCons(co->gc, False, Nil);
-Obj v_2313929_25 = makeCons(co->gc, v_more, v_2313928_25);
-Obj v_2313930_25 = makeCons(co->gc, v_2313927_25, v_2313929_25);
-Obj v_2313931_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313930_25);
-coraReturn(co, v_2313931_25);
+Obj v_2313938_25= co->res;
+Obj v_2313936_25 = R[1];
+Obj v_2313939_25 = makeCons(co->gc, False, Nil);
+Obj v_2313940_25 = makeCons(co->gc, v_2313938_25, v_2313939_25);
+Obj v_2313941_25 = makeCons(co->gc, v_2313936_25, v_2313940_25);
+Obj v_2313942_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313941_25);
+coraReturn(co, v_2313942_25);
 return;
 }
 }
 }
-}
 
 static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313919_25 = PRIM_CDR(v_exp);
+Obj v_2313931_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313919_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v_2313931_25);
 return;
 }
 }
@@ -3505,100 +3697,93 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v_2313907_25 = PRIM_EQ(v_l, Nil);
-if (True == v_2313907_25) {
+Obj v_2313920_25 = PRIM_EQ(v_l, Nil);
+if (True == v_2313920_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2313908_25 = PRIM_CAR(v_l);
-Obj v_2313909_25 = PRIM_EQ(v_2313908_25, True);
-if (True == v_2313909_25) {
+Obj v_2313921_25 = PRIM_CAR(v_l);
+Obj v_2313922_25 = PRIM_EQ(v_2313921_25, True);
+if (True == v_2313922_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313910_25 = PRIM_CDR(v_l);
-R[1] = v_l;
+Obj v_2313923_25 = PRIM_CAR(v_l);
+Obj v_2313924_25 = PRIM_CDR(v_l);
+R[1] = v_2313923_25;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v_2313910_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v_2313924_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2313911_25= co->res;
-Obj v_l = R[1];
-Obj v_more = v_2313911_25;
-Obj v_2313912_25 = PRIM_EQ(v_more, True);
-if (True == v_2313912_25) {
-coraReturn(co, True);
-return;
-} else {
-Obj v_2313913_25 = PRIM_CAR(v_l);
-Obj v_2313914_25 = makeCons(co->gc, v_more, Nil);
-Obj v_2313915_25 = makeCons(co->gc, True, v_2313914_25);
-Obj v_2313916_25 = makeCons(co->gc, v_2313913_25, v_2313915_25);
-Obj v_2313917_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313916_25);
-coraReturn(co, v_2313917_25);
+Obj v_2313925_25= co->res;
+Obj v_2313923_25 = R[1];
+Obj v_2313926_25 = makeCons(co->gc, v_2313925_25, Nil);
+Obj v_2313927_25 = makeCons(co->gc, True, v_2313926_25);
+Obj v_2313928_25 = makeCons(co->gc, v_2313923_25, v_2313927_25);
+Obj v_2313929_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313928_25);
+coraReturn(co, v_2313929_25);
 return;
 }
 }
 }
-}
 
 static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313893_25 = PRIM_CDR(v_exp);
-Obj v_2313894_25 = PRIM_EQ(Nil, v_2313893_25);
-if (True == v_2313894_25) {
-Obj v_2313895_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v_2313896_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313895_25);
-coraReturn(co, v_2313896_25);
+Obj v_2313906_25 = PRIM_CDR(v_exp);
+Obj v_2313907_25 = PRIM_EQ(Nil, v_2313906_25);
+if (True == v_2313907_25) {
+Obj v_2313908_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2313909_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313908_25);
+coraReturn(co, v_2313909_25);
 return;
 } else {
 R[1] = v_exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 }
 case 1:
 {
-Obj v_2313900_25= co->res;
-Obj v_2313899_25 = R[1];
-Obj v_2313898_25 = R[2];
-Obj v_2313901_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313900_25);
-Obj v_2313902_25 = makeCons(co->gc, v_2313901_25, Nil);
-Obj v_2313903_25 = makeCons(co->gc, v_2313899_25, v_2313902_25);
-Obj v_2313904_25 = makeCons(co->gc, v_2313898_25, v_2313903_25);
-Obj v_2313905_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2313904_25);
-coraReturn(co, v_2313905_25);
+Obj v_2313913_25= co->res;
+Obj v_2313912_25 = R[1];
+Obj v_2313911_25 = R[2];
+Obj v_2313914_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313913_25);
+Obj v_2313915_25 = makeCons(co->gc, v_2313914_25, Nil);
+Obj v_2313916_25 = makeCons(co->gc, v_2313912_25, v_2313915_25);
+Obj v_2313917_25 = makeCons(co->gc, v_2313911_25, v_2313916_25);
+Obj v_2313918_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2313917_25);
+coraReturn(co, v_2313918_25);
 return;
 }
 case 2:
 {
-Obj v_2313899_25= co->res;
+Obj v_2313912_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313898_25 = R[2];
-R[1] = v_2313899_25;
-R[2] = v_2313898_25;
+Obj v_2313911_25 = R[2];
+R[1] = v_2313912_25;
+R[2] = v_2313911_25;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313897_25= co->res;
+Obj v_2313910_25= co->res;
 Obj v_exp = R[1];
-Obj v_curr = v_2313897_25;
-Obj v_2313898_25 = PRIM_CAR(v_curr);
+Obj v_curr = v_2313910_25;
+Obj v_2313911_25 = PRIM_CAR(v_curr);
 R[1] = v_exp;
-R[2] = v_2313898_25;
+R[2] = v_2313911_25;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_curr);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_curr);
 return;
 }
 }
@@ -3609,9 +3794,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313891_25 = PRIM_CDR(v_exp);
+Obj v_2313904_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313891_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_2313904_25);
 return;
 }
 }
@@ -3622,60 +3807,60 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313879_25 = PRIM_CDR(v_exp);
+Obj v_2313892_25 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_2313879_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_2313892_25);
 return;
 }
 case 1:
 {
-Obj v_2313885_25= co->res;
-Obj v_2313883_25 = R[1];
-Obj v_2313882_25 = R[2];
-Obj v_2313886_25 = makeCons(co->gc, v_2313885_25, Nil);
-Obj v_2313887_25 = makeCons(co->gc, v_2313883_25, v_2313886_25);
-Obj v_2313888_25 = makeCons(co->gc, v_2313882_25, v_2313887_25);
-Obj v_2313889_25 = makeCons(co->gc, getBinding(co, packageID, 129).name, v_2313888_25);
-coraReturn(co, v_2313889_25);
+Obj v_2313898_25= co->res;
+Obj v_2313896_25 = R[1];
+Obj v_2313895_25 = R[2];
+Obj v_2313899_25 = makeCons(co->gc, v_2313898_25, Nil);
+Obj v_2313900_25 = makeCons(co->gc, v_2313896_25, v_2313899_25);
+Obj v_2313901_25 = makeCons(co->gc, v_2313895_25, v_2313900_25);
+Obj v_2313902_25 = makeCons(co->gc, getBinding(co, packageID, 130).name, v_2313901_25);
+coraReturn(co, v_2313902_25);
 return;
 }
 case 2:
 {
-Obj v_2313884_25= co->res;
-Obj v_2313883_25 = R[1];
-Obj v_2313882_25 = R[2];
-R[1] = v_2313883_25;
-R[2] = v_2313882_25;
+Obj v_2313897_25= co->res;
+Obj v_2313896_25 = R[1];
+Obj v_2313895_25 = R[2];
+R[1] = v_2313896_25;
+R[2] = v_2313895_25;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v_2313884_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_2313897_25);
 return;
 }
 case 3:
 {
-Obj v_2313883_25= co->res;
+Obj v_2313896_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313882_25 = R[2];
-R[1] = v_2313883_25;
-R[2] = v_2313882_25;
+Obj v_2313895_25 = R[2];
+R[1] = v_2313896_25;
+R[2] = v_2313895_25;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2313880_25= co->res;
+Obj v_2313893_25= co->res;
 Obj v_exp = R[1];
-if (True == v_2313880_25) {
-Obj v_2313881_25 = PRIM_CAR(v_exp);
-coraReturn(co, v_2313881_25);
+if (True == v_2313893_25) {
+Obj v_2313894_25 = PRIM_CAR(v_exp);
+coraReturn(co, v_2313894_25);
 return;
 } else {
-Obj v_2313882_25 = PRIM_CAR(v_exp);
+Obj v_2313895_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2313882_25;
+R[2] = v_2313895_25;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 }
@@ -3687,9 +3872,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313876_25 = PRIM_ISCONS(v_x);
-Obj v_2313877_25 = primNot(v_2313876_25);
-coraReturn(co, v_2313877_25);
+Obj v_2313889_25 = PRIM_ISCONS(v_x);
+Obj v_2313890_25 = primNot(v_2313889_25);
+coraReturn(co, v_2313890_25);
 return;
 }
 }
@@ -3701,17 +3886,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v_2313871_25 = PRIM_ISCONS(v_l);
-if (True == v_2313871_25) {
-Obj v_2313872_25 = PRIM_CAR(v_l);
-Obj v_2313873_25 = PRIM_EQ(v_2313872_25, v_x);
-if (True == v_2313873_25) {
+Obj v_2313884_25 = PRIM_ISCONS(v_l);
+if (True == v_2313884_25) {
+Obj v_2313885_25 = PRIM_CAR(v_l);
+Obj v_2313886_25 = PRIM_EQ(v_2313885_25, v_x);
+if (True == v_2313886_25) {
 coraReturn(co, True);
 return;
 } else {
-Obj v_2313874_25 = PRIM_CDR(v_l);
+Obj v_2313887_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v_2313874_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, v_2313887_25);
 return;
 }
 } else {
@@ -3729,42 +3914,42 @@ case 0:
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2313863_25= co->res;
-Obj v_2313862_25 = R[1];
-Obj v_2313861_25 = R[2];
-Obj v_2313864_25 = makeCons(co->gc, v_2313863_25, Nil);
-Obj v_2313865_25 = makeCons(co->gc, v_2313862_25, v_2313864_25);
-Obj v_2313866_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313865_25);
-Obj v_2313867_25 = makeCons(co->gc, v_2313866_25, Nil);
-Obj v_2313868_25 = makeCons(co->gc, v_2313861_25, v_2313867_25);
-Obj v_2313869_25 = makeCons(co->gc, getBinding(co, packageID, 133).name, v_2313868_25);
-coraReturn(co, v_2313869_25);
+Obj v_2313876_25= co->res;
+Obj v_2313875_25 = R[1];
+Obj v_2313874_25 = R[2];
+Obj v_2313877_25 = makeCons(co->gc, v_2313876_25, Nil);
+Obj v_2313878_25 = makeCons(co->gc, v_2313875_25, v_2313877_25);
+Obj v_2313879_25 = makeCons(co->gc, getBinding(co, packageID, 141).name, v_2313878_25);
+Obj v_2313880_25 = makeCons(co->gc, v_2313879_25, Nil);
+Obj v_2313881_25 = makeCons(co->gc, v_2313874_25, v_2313880_25);
+Obj v_2313882_25 = makeCons(co->gc, getBinding(co, packageID, 134).name, v_2313881_25);
+coraReturn(co, v_2313882_25);
 return;
 }
 case 2:
 {
-Obj v_2313862_25= co->res;
+Obj v_2313875_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313861_25 = R[2];
-R[1] = v_2313862_25;
-R[2] = v_2313861_25;
+Obj v_2313874_25 = R[2];
+R[1] = v_2313875_25;
+R[2] = v_2313874_25;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313861_25= co->res;
+Obj v_2313874_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v_2313861_25;
+R[2] = v_2313874_25;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -3775,9 +3960,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313859_25 = PRIM_CDR(v_exp);
+Obj v_2313872_25 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313859_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_2313872_25);
 return;
 }
 }
@@ -3790,43 +3975,43 @@ case 0:
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v_2313851_25= co->res;
-Obj v_2313850_25 = R[1];
-Obj v_2313849_25 = R[2];
-Obj v_2313852_25 = makeCons(co->gc, v_2313850_25, v_2313851_25);
-Obj v_2313853_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313852_25);
-Obj v_2313854_25 = makeCons(co->gc, v_2313853_25, Nil);
-Obj v_2313855_25 = makeCons(co->gc, v_2313849_25, v_2313854_25);
-Obj v_2313856_25 = makeCons(co->gc, getBinding(co, packageID, 144).name, v_2313855_25);
-coraReturn(co, v_2313856_25);
+Obj v_2313864_25= co->res;
+Obj v_2313863_25 = R[1];
+Obj v_2313862_25 = R[2];
+Obj v_2313865_25 = makeCons(co->gc, v_2313863_25, v_2313864_25);
+Obj v_2313866_25 = makeCons(co->gc, getBinding(co, packageID, 141).name, v_2313865_25);
+Obj v_2313867_25 = makeCons(co->gc, v_2313866_25, Nil);
+Obj v_2313868_25 = makeCons(co->gc, v_2313862_25, v_2313867_25);
+Obj v_2313869_25 = makeCons(co->gc, getBinding(co, packageID, 145).name, v_2313868_25);
+coraReturn(co, v_2313869_25);
 return;
 }
 case 2:
 {
-Obj v_2313850_25= co->res;
+Obj v_2313863_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313849_25 = R[2];
-R[1] = v_2313850_25;
-R[2] = v_2313849_25;
+Obj v_2313862_25 = R[2];
+R[1] = v_2313863_25;
+R[2] = v_2313862_25;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v_2313847_25= co->res;
+Obj v_2313860_25= co->res;
 Obj v_exp = R[1];
-Obj v_2313848_25 = makeCons(co->gc, v_2313847_25, Nil);
-Obj v_2313849_25 = makeCons(co->gc, getBinding(co, packageID, 139).name, v_2313848_25);
+Obj v_2313861_25 = makeCons(co->gc, v_2313860_25, Nil);
+Obj v_2313862_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313861_25);
 R[1] = v_exp;
-R[2] = v_2313849_25;
+R[2] = v_2313862_25;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -3837,32 +4022,32 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313829_25 = PRIM_ISCONS(v_exp);
-if (True == v_2313829_25) {
-Obj v_2313830_25 = PRIM_CAR(v_exp);
-Obj v_2313831_25 = PRIM_EQ(v_2313830_25, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v_2313831_25) {
-Obj v_2313832_25 = PRIM_CDR(v_exp);
-coraReturn(co, v_2313832_25);
-return;
-} else {
-Obj v_2313833_25 = PRIM_CAR(v_exp);
-Obj v_2313834_25 = PRIM_EQ(v_2313833_25, getBinding(co, packageID, 140).name);
-if (True == v_2313834_25) {
+Obj v_2313842_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313842_25) {
+Obj v_2313843_25 = PRIM_CAR(v_exp);
+Obj v_2313844_25 = PRIM_EQ(v_2313843_25, globalRef(co, getBinding(co, packageID, 146)));
+if (True == v_2313844_25) {
+Obj v_2313845_25 = PRIM_CDR(v_exp);
+coraReturn(co, v_2313845_25);
+return;
+} else {
+Obj v_2313846_25 = PRIM_CAR(v_exp);
+Obj v_2313847_25 = PRIM_EQ(v_2313846_25, getBinding(co, packageID, 141).name);
+if (True == v_2313847_25) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 } else {
-Obj v_2313841_25 = PRIM_CAR(v_exp);
-Obj v_2313842_25 = PRIM_EQ(v_2313841_25, getBinding(co, packageID, 139).name);
-if (True == v_2313842_25) {
+Obj v_2313854_25 = PRIM_CAR(v_exp);
+Obj v_2313855_25 = PRIM_EQ(v_2313854_25, getBinding(co, packageID, 140).name);
+if (True == v_2313855_25) {
 coraReturn(co, v_exp);
 return;
 } else {
 R[1] = v_exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v_exp);
 return;
 }
 }
@@ -3874,38 +4059,38 @@ return;
 }
 case 1:
 {
-Obj v_2313837_25= co->res;
-Obj v_2313835_25 = R[1];
-Obj v_2313838_25 = makeCons(co->gc, v_2313837_25, Nil);
-Obj v_2313839_25 = makeCons(co->gc, v_2313835_25, v_2313838_25);
-Obj v_2313840_25 = makeCons(co->gc, getBinding(co, packageID, 140).name, v_2313839_25);
-coraReturn(co, v_2313840_25);
+Obj v_2313850_25= co->res;
+Obj v_2313848_25 = R[1];
+Obj v_2313851_25 = makeCons(co->gc, v_2313850_25, Nil);
+Obj v_2313852_25 = makeCons(co->gc, v_2313848_25, v_2313851_25);
+Obj v_2313853_25 = makeCons(co->gc, getBinding(co, packageID, 141).name, v_2313852_25);
+coraReturn(co, v_2313853_25);
 return;
 }
 case 2:
 {
-Obj v_2313836_25= co->res;
-Obj v_2313835_25 = R[1];
-R[1] = v_2313835_25;
+Obj v_2313849_25= co->res;
+Obj v_2313848_25 = R[1];
+R[1] = v_2313848_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_2313836_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_2313849_25);
 return;
 }
 case 3:
 {
-Obj v_2313835_25= co->res;
+Obj v_2313848_25= co->res;
 Obj v_exp = R[1];
-R[1] = v_2313835_25;
+R[1] = v_2313848_25;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v_2313844_25= co->res;
+Obj v_2313857_25= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313844_25);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v_2313857_25);
 return;
 }
 }
@@ -3916,14 +4101,14 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v_2313843_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v_2313843_25) {
+Obj v_2313856_25 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v_2313856_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
 }
 }
@@ -3936,7 +4121,7 @@ case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v_exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v_exp, globalRef(co, getBinding(co, packageID, 147)));
 return;
 }
 }
@@ -3948,14 +4133,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v_2313819_25 = PRIM_EQ(Nil, v_macros);
-if (True == v_2313819_25) {
+Obj v_2313832_25 = PRIM_EQ(Nil, v_macros);
+if (True == v_2313832_25) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v_2313826_25 = PRIM_CAR(v_macros);
+Obj v_2313839_25 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313826_25);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v_2313839_25);
 return;
 }
 }
@@ -3967,24 +4152,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v_2313668_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2313822_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2313822_25) {
-Obj v_2313823_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2313824_25 = PRIM_CAR(v_item);
-Obj v_2313825_25 = PRIM_EQ(v_2313823_25, v_2313824_25);
-if (True == v_2313825_25) {
+Obj v_2313671_25 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2313835_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2313835_25) {
+Obj v_2313836_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2313837_25 = PRIM_CAR(v_item);
+Obj v_2313838_25 = PRIM_EQ(v_2313836_25, v_2313837_25);
+if (True == v_2313838_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2313668_25, True);
+coraCall1(co, v_2313671_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313668_25, False);
+coraCall1(co, v_2313671_25, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2313668_25, False);
+coraCall1(co, v_2313671_25, False);
 return;
 }
 }
@@ -3995,16 +4180,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2313669_25 = R[1];
-if (True == v_2313669_25) {
-Obj v_2313820_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2313672_25 = R[1];
+if (True == v_2313672_25) {
+Obj v_2313833_25 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v_2313820_25, closureRef(R[0], 1));
+coraCall1(co, v_2313833_25, closureRef(R[0], 1));
 return;
 } else {
-Obj v_2313821_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2313834_25 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v_2313821_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v_2313834_25);
 return;
 }
 }
@@ -4017,10 +4202,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v_2313815_25 = makeCons(co->gc, v_n, v_v);
-Obj v_2313816_25 = makeCons(co->gc, v_2313815_25, globalRef(co, getBinding(co, packageID, 146)));
-Obj v_2313817_25 = primSet(co, getBinding(co, packageID, 146).name, v_2313816_25);
-coraReturn(co, v_2313817_25);
+Obj v_2313828_25 = makeCons(co->gc, v_n, v_v);
+Obj v_2313829_25 = makeCons(co->gc, v_2313828_25, globalRef(co, getBinding(co, packageID, 147)));
+Obj v_2313830_25 = primSet(co, getBinding(co, packageID, 147).name, v_2313829_25);
+coraReturn(co, v_2313830_25);
 return;
 }
 }
@@ -4033,7 +4218,7 @@ case 0:
 Obj v_f = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v_f, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v_f, v_l);
 return;
 }
 }
@@ -4046,31 +4231,31 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v_2313805_25 = PRIM_ISCONS(v_l);
-if (True == v_2313805_25) {
-Obj v_2313806_25 = PRIM_CAR(v_l);
+Obj v_2313818_25 = PRIM_ISCONS(v_l);
+if (True == v_2313818_25) {
+Obj v_2313819_25 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v_2313806_25);
+coraCall1(co, v_f, v_2313819_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj v_2313807_25= co->res;
+Obj v_2313820_25= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v_2313808_25 = makeCons(co->gc, v_2313807_25, v_res);
-Obj v_2313809_25 = PRIM_CDR(v_l);
+Obj v_2313821_25 = makeCons(co->gc, v_2313820_25, v_res);
+Obj v_2313822_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v_2313808_25, v_f, v_2313809_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v_2313821_25, v_f, v_2313822_25);
 return;
 }
 }
@@ -4082,13 +4267,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v_2313798_25 = PRIM_ISCONS(v_l);
-if (True == v_2313798_25) {
-Obj v_2313799_25 = PRIM_CAR(v_l);
-Obj v_2313800_25 = makeCons(co->gc, v_2313799_25, v_res);
-Obj v_2313801_25 = PRIM_CDR(v_l);
+Obj v_2313811_25 = PRIM_ISCONS(v_l);
+if (True == v_2313811_25) {
+Obj v_2313812_25 = PRIM_CAR(v_l);
+Obj v_2313813_25 = makeCons(co->gc, v_2313812_25, v_res);
+Obj v_2313814_25 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v_2313800_25, v_2313801_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v_2313813_25, v_2313814_25);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4288,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313796_25 = PRIM_ISCONS(v_x);
-coraReturn(co, v_2313796_25);
+Obj v_2313809_25 = PRIM_ISCONS(v_x);
+coraReturn(co, v_2313809_25);
 return;
 }
 }
@@ -4115,13 +4300,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v_2313788_25 = PRIM_ISCONS(v_exp);
-if (True == v_2313788_25) {
-Obj v_2313789_25 = PRIM_CAR(v_exp);
-Obj v_2313790_25 = PRIM_CDR(v_exp);
-R[1] = v_2313789_25;
+Obj v_2313801_25 = PRIM_ISCONS(v_exp);
+if (True == v_2313801_25) {
+Obj v_2313802_25 = PRIM_CAR(v_exp);
+Obj v_2313803_25 = PRIM_CDR(v_exp);
+R[1] = v_2313802_25;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v_2313790_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_2313803_25);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4315,12 @@ return;
 }
 case 1:
 {
-Obj v_2313791_25= co->res;
-Obj v_2313789_25 = R[1];
-Obj v_2313792_25 = makeCons(co->gc, v_2313791_25, Nil);
-Obj v_2313793_25 = makeCons(co->gc, v_2313789_25, v_2313792_25);
-Obj v_2313794_25 = makeCons(co->gc, getBinding(co, packageID, 152).name, v_2313793_25);
-coraReturn(co, v_2313794_25);
+Obj v_2313804_25= co->res;
+Obj v_2313802_25 = R[1];
+Obj v_2313805_25 = makeCons(co->gc, v_2313804_25, Nil);
+Obj v_2313806_25 = makeCons(co->gc, v_2313802_25, v_2313805_25);
+Obj v_2313807_25 = makeCons(co->gc, getBinding(co, packageID, 153).name, v_2313806_25);
+coraReturn(co, v_2313807_25);
 return;
 }
 }
@@ -4146,10 +4331,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313784_25 = PRIM_CDR(v_x);
-Obj v_2313785_25 = PRIM_CDR(v_2313784_25);
-Obj v_2313786_25 = PRIM_CDR(v_2313785_25);
-coraReturn(co, v_2313786_25);
+Obj v_2313797_25 = PRIM_CDR(v_x);
+Obj v_2313798_25 = PRIM_CDR(v_2313797_25);
+Obj v_2313799_25 = PRIM_CDR(v_2313798_25);
+coraReturn(co, v_2313799_25);
 return;
 }
 }
@@ -4160,11 +4345,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313779_25 = PRIM_CDR(v_x);
-Obj v_2313780_25 = PRIM_CDR(v_2313779_25);
-Obj v_2313781_25 = PRIM_CDR(v_2313780_25);
-Obj v_2313782_25 = PRIM_CAR(v_2313781_25);
-coraReturn(co, v_2313782_25);
+Obj v_2313792_25 = PRIM_CDR(v_x);
+Obj v_2313793_25 = PRIM_CDR(v_2313792_25);
+Obj v_2313794_25 = PRIM_CDR(v_2313793_25);
+Obj v_2313795_25 = PRIM_CAR(v_2313794_25);
+coraReturn(co, v_2313795_25);
 return;
 }
 }
@@ -4175,10 +4360,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313775_25 = PRIM_CDR(v_x);
-Obj v_2313776_25 = PRIM_CDR(v_2313775_25);
-Obj v_2313777_25 = PRIM_CAR(v_2313776_25);
-coraReturn(co, v_2313777_25);
+Obj v_2313788_25 = PRIM_CDR(v_x);
+Obj v_2313789_25 = PRIM_CDR(v_2313788_25);
+Obj v_2313790_25 = PRIM_CAR(v_2313789_25);
+coraReturn(co, v_2313790_25);
 return;
 }
 }
@@ -4189,9 +4374,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313772_25 = PRIM_CDR(v_x);
-Obj v_2313773_25 = PRIM_CDR(v_2313772_25);
-coraReturn(co, v_2313773_25);
+Obj v_2313785_25 = PRIM_CDR(v_x);
+Obj v_2313786_25 = PRIM_CDR(v_2313785_25);
+coraReturn(co, v_2313786_25);
 return;
 }
 }
@@ -4202,9 +4387,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313769_25 = PRIM_CAR(v_x);
-Obj v_2313770_25 = PRIM_CDR(v_2313769_25);
-coraReturn(co, v_2313770_25);
+Obj v_2313782_25 = PRIM_CAR(v_x);
+Obj v_2313783_25 = PRIM_CDR(v_2313782_25);
+coraReturn(co, v_2313783_25);
 return;
 }
 }
@@ -4215,9 +4400,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313766_25 = PRIM_CAR(v_x);
-Obj v_2313767_25 = PRIM_CAR(v_2313766_25);
-coraReturn(co, v_2313767_25);
+Obj v_2313779_25 = PRIM_CAR(v_x);
+Obj v_2313780_25 = PRIM_CAR(v_2313779_25);
+coraReturn(co, v_2313780_25);
 return;
 }
 }
@@ -4228,9 +4413,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313763_25 = PRIM_CDR(v_x);
-Obj v_2313764_25 = PRIM_CAR(v_2313763_25);
-coraReturn(co, v_2313764_25);
+Obj v_2313776_25 = PRIM_CDR(v_x);
+Obj v_2313777_25 = PRIM_CAR(v_2313776_25);
+coraReturn(co, v_2313777_25);
 return;
 }
 }
@@ -4241,8 +4426,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2313761_25 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v_2313761_25);
+Obj v_2313774_25 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v_2313774_25);
 return;
 }
 }
diff --git a/init.cora b/init.cora
index 735ab7d..c80f904 100644
--- a/init.cora
+++ b/init.cora
@@ -139,10 +139,7 @@
       false
     (if (= (car l) true)
         true
-      (let more (cora/init#rewrite-or (cdr l))
-           (if (= more true)
-               true
-             (list 'if (car l) true more))))))
+      (list 'if (car l) true (cora/init#rewrite-or (cdr l))))))
 
 (defmacro or (exp)
   (cora/init#rewrite-or (cdr exp)))
@@ -152,10 +149,7 @@
       true
     (if (= (car l) false)
         false
-      (let more (cora/init#rewrite-and (cdr l))
-           (if (= more false)
-               false
-             (list 'if (car l) more false))))))
+      (list 'if (car l) (cora/init#rewrite-and (cdr l)) false))))
 
 (defmacro and (exp)
   (cora/init#rewrite-and (cdr exp)))
@@ -221,15 +215,23 @@
 		    (list 'let cc (list 'lambda () rest)
 			  curr)))))))
 
-(defun cora/init#rewrite-match (exp)
-  (let value (macroexpand (cadr exp))
-       rules (cddr exp)
-       (if (and (cons? value)
-		(not (= 'cons (car value))))
-	   (let val (gensym)
-		(list 'let val value (cora/init#match-helper val rules)))
-	   (cora/init#match-helper value rules))))
+;; Evaluate the scrutinee once, to variables that no pattern can shadow.  A list
+;; written out is taken apart here, so that matching it needs no allocation.
+(defun cora/init#bind-scrutinee (value k)
+  (cond
+    ((and (cons? value) (and (= (car value) 'cons) (pair? (cddr value))))
+     (cora/init#bind-scrutinee (cadr value)
+       (lambda (hd)
+	 (cora/init#bind-scrutinee (caddr value)
+	   (lambda (tl) (k (list 'cons hd tl)))))))
+    ((or (cons? value) (symbol? value))
+     (let val (gensym)
+	  (list 'let val value (k val))))
+    (true (k value))))
 
+(defun cora/init#rewrite-match (exp)
+  (cora/init#bind-scrutinee (macroexpand (cadr exp))
+    (lambda (val) (cora/init#match-helper val (cddr exp)))))
 
 (defmacro match (exp)
   (cora/init#rewrite-match exp))
@@ -297,8 +299,7 @@
     (let nargs (cora/init#rules-arg-count body)
       (let args (cora/init#gen-paramenters nargs)
         (list 'defun (cadr exp) args
-              (cons 'match (cons (cons 'list args)
-                                 body)))))))
+              (cora/init#match-helper (rcons args) body))))))
 
 (defun cora/init#rewrite-namespace (exp)
   (cora/init#parse () "" () exp))
diff --git a/lib/toc.c b/lib/toc.c
index 88fe65f..ae0d8b5 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -316,157 +316,157 @@ return;
 }
 case 1:
 {
-Obj v_2319707_25= co->res;
-Obj v_2319713_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun121, 2, 0));
-Obj v_2319719_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun122, 2, 0));
-Obj v_2319741_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun124, 3, 0));
-Obj v_2319764_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj v_2319777_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun129, 3, 0));
-Obj v_2319818_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun134, 1, 0));
-Obj v_2319857_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun137, 4, 0));
-Obj v_2319909_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun142, 2, 0));
-Obj v_2319910_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun143, 2, 0));
-Obj v_2319924_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun151, 1, 0));
-Obj v_2319925_25 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v_2319938_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun153, 1, 0));
-Obj v_2319948_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun154, 2, 0));
-coraReturn(co, v_2319948_25);
+Obj v_2319828_25= co->res;
+Obj v_2319834_25 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun121, 2, 0));
+Obj v_2319840_25 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun122, 2, 0));
+Obj v_2319862_25 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 7, clofun124, 3, 0));
+Obj v_2319885_25 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 5, clofun126, 4, 0));
+Obj v_2319898_25 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 5, clofun129, 3, 0));
+Obj v_2319939_25 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun134, 1, 0));
+Obj v_2319978_25 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun137, 4, 0));
+Obj v_2320030_25 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun142, 2, 0));
+Obj v_2320031_25 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun143, 2, 0));
+Obj v_2320045_25 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun151, 1, 0));
+Obj v_2320046_25 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v_2320059_25 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun153, 1, 0));
+Obj v_2320069_25 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun154, 2, 0));
+coraReturn(co, v_2320069_25);
 return;
 }
 case 2:
 {
-Obj v_2318250_25= co->res;
-Obj v_2318251_25 = primSet(co, getBinding(co, packageID, 135).name, Nil);
-Obj v_2318266_25 = primSet(co, getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v_2318272_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v_2318282_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v_2318283_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v_2318290_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2318291_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v_2318292_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318291_25);
-Obj v_2318293_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2318292_25);
-Obj v_2318294_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v_2318295_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318294_25);
-Obj v_2318296_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2318295_25);
-Obj v_2318297_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v_2318298_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318297_25);
-Obj v_2318299_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2318298_25);
-Obj v_2318300_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v_2318301_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318300_25);
-Obj v_2318302_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2318301_25);
-Obj v_2318303_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v_2318304_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318303_25);
-Obj v_2318305_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2318304_25);
-Obj v_2318306_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v_2318307_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318306_25);
-Obj v_2318308_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2318307_25);
-Obj v_2318309_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v_2318310_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318309_25);
-Obj v_2318311_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2318310_25);
-Obj v_2318312_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v_2318313_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318312_25);
-Obj v_2318314_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2318313_25);
-Obj v_2318315_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v_2318316_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318315_25);
-Obj v_2318317_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2318316_25);
-Obj v_2318318_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v_2318319_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318318_25);
-Obj v_2318320_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2318319_25);
-Obj v_2318321_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v_2318322_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318321_25);
-Obj v_2318323_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2318322_25);
-Obj v_2318324_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v_2318325_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318324_25);
-Obj v_2318326_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2318325_25);
-Obj v_2318327_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v_2318328_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2318327_25);
-Obj v_2318329_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2318328_25);
-Obj v_2318330_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v_2318331_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318330_25);
-Obj v_2318332_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2318331_25);
-Obj v_2318333_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v_2318334_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318333_25);
-Obj v_2318335_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2318334_25);
-Obj v_2318336_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v_2318337_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318336_25);
-Obj v_2318338_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2318337_25);
-Obj v_2318339_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v_2318340_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318339_25);
-Obj v_2318341_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2318340_25);
-Obj v_2318342_25 = makeCons(co->gc, v_2318341_25, Nil);
-Obj v_2318343_25 = makeCons(co->gc, v_2318338_25, v_2318342_25);
-Obj v_2318344_25 = makeCons(co->gc, v_2318335_25, v_2318343_25);
-Obj v_2318345_25 = makeCons(co->gc, v_2318332_25, v_2318344_25);
-Obj v_2318346_25 = makeCons(co->gc, v_2318329_25, v_2318345_25);
-Obj v_2318347_25 = makeCons(co->gc, v_2318326_25, v_2318346_25);
-Obj v_2318348_25 = makeCons(co->gc, v_2318323_25, v_2318347_25);
-Obj v_2318349_25 = makeCons(co->gc, v_2318320_25, v_2318348_25);
-Obj v_2318350_25 = makeCons(co->gc, v_2318317_25, v_2318349_25);
-Obj v_2318351_25 = makeCons(co->gc, v_2318314_25, v_2318350_25);
-Obj v_2318352_25 = makeCons(co->gc, v_2318311_25, v_2318351_25);
-Obj v_2318353_25 = makeCons(co->gc, v_2318308_25, v_2318352_25);
-Obj v_2318354_25 = makeCons(co->gc, v_2318305_25, v_2318353_25);
-Obj v_2318355_25 = makeCons(co->gc, v_2318302_25, v_2318354_25);
-Obj v_2318356_25 = makeCons(co->gc, v_2318299_25, v_2318355_25);
-Obj v_2318357_25 = makeCons(co->gc, v_2318296_25, v_2318356_25);
-Obj v_2318358_25 = makeCons(co->gc, v_2318293_25, v_2318357_25);
-Obj v_2318359_25 = primSet(co, getBinding(co, packageID, 128).name, v_2318358_25);
-Obj v_2318363_25 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v_2318366_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v_2318369_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v_2318374_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v_2318388_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 4, clofun13, 3, 0));
-Obj v_2318401_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun14, 1, 0));
-Obj v_2318412_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun17, 3, 0));
-Obj v_2318422_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 4, clofun19, 3, 0));
-Obj v_2318439_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun20, 2, 0));
-Obj v_2318641_25 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 5, clofun31, 4, 0));
-Obj v_2318652_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun33, 2, 0));
-Obj v_2318663_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun35, 2, 0));
-Obj v_2318724_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun42, 1, 0));
-Obj v_2318899_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v_2318972_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun55, 2, 0));
-Obj v_2318975_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun56, 1, 0));
-Obj v_2319112_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun65, 2, 0));
-Obj v_2319135_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun68, 3, 0));
-Obj v_2319212_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun72, 2, 0));
-Obj v_2319243_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun76, 3, 0));
-Obj v_2319249_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun79, 4, 0));
-Obj v_2319254_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v_2319263_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun83, 1, 0));
-Obj v_2319314_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun85, 2, 0));
-Obj v_2319322_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun86, 2, 0));
-Obj v_2319329_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun87, 2, 0));
-Obj v_2319334_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 4, clofun88, 2, 0));
-Obj v_2319340_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun89, 3, 0));
-Obj v_2319341_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun90, 2, 0));
-Obj v_2319348_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun92, 5, 0));
-Obj v_2319355_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun94, 5, 0));
-Obj v_2319642_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun107, 5, 0));
-Obj v_2319656_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun109, 5, 0));
-Obj v_2319678_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun111, 5, 0));
-Obj v_2319680_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v_2319684_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun113, 2, 0));
-Obj v_2319687_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun114, 2, 0));
-Obj v_2319688_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun115, 1, 0));
-Obj v_2319689_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun116, 1, 0));
-Obj v_2319690_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun117, 1, 0));
-Obj v_2319697_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun118, 1, 0));
-Obj v_2319704_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun119, 2, 0));
+Obj v_2318371_25= co->res;
+Obj v_2318372_25 = primSet(co, getBinding(co, packageID, 135).name, Nil);
+Obj v_2318387_25 = primSet(co, getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v_2318393_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v_2318403_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v_2318404_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v_2318411_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v_2318412_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2318413_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318412_25);
+Obj v_2318414_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2318413_25);
+Obj v_2318415_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2318416_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318415_25);
+Obj v_2318417_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2318416_25);
+Obj v_2318418_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2318419_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318418_25);
+Obj v_2318420_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2318419_25);
+Obj v_2318421_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2318422_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318421_25);
+Obj v_2318423_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2318422_25);
+Obj v_2318424_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2318425_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318424_25);
+Obj v_2318426_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2318425_25);
+Obj v_2318427_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2318428_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318427_25);
+Obj v_2318429_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2318428_25);
+Obj v_2318430_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2318431_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318430_25);
+Obj v_2318432_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2318431_25);
+Obj v_2318433_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2318434_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318433_25);
+Obj v_2318435_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2318434_25);
+Obj v_2318436_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2318437_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318436_25);
+Obj v_2318438_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2318437_25);
+Obj v_2318439_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2318440_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318439_25);
+Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2318440_25);
+Obj v_2318442_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2318443_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318442_25);
+Obj v_2318444_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2318443_25);
+Obj v_2318445_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2318446_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318445_25);
+Obj v_2318447_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2318446_25);
+Obj v_2318448_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2318449_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2318448_25);
+Obj v_2318450_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2318449_25);
+Obj v_2318451_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2318452_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318451_25);
+Obj v_2318453_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2318452_25);
+Obj v_2318454_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2318455_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318454_25);
+Obj v_2318456_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2318455_25);
+Obj v_2318457_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2318458_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318457_25);
+Obj v_2318459_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2318458_25);
+Obj v_2318460_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2318461_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318460_25);
+Obj v_2318462_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2318461_25);
+Obj v_2318463_25 = makeCons(co->gc, v_2318462_25, Nil);
+Obj v_2318464_25 = makeCons(co->gc, v_2318459_25, v_2318463_25);
+Obj v_2318465_25 = makeCons(co->gc, v_2318456_25, v_2318464_25);
+Obj v_2318466_25 = makeCons(co->gc, v_2318453_25, v_2318465_25);
+Obj v_2318467_25 = makeCons(co->gc, v_2318450_25, v_2318466_25);
+Obj v_2318468_25 = makeCons(co->gc, v_2318447_25, v_2318467_25);
+Obj v_2318469_25 = makeCons(co->gc, v_2318444_25, v_2318468_25);
+Obj v_2318470_25 = makeCons(co->gc, v_2318441_25, v_2318469_25);
+Obj v_2318471_25 = makeCons(co->gc, v_2318438_25, v_2318470_25);
+Obj v_2318472_25 = makeCons(co->gc, v_2318435_25, v_2318471_25);
+Obj v_2318473_25 = makeCons(co->gc, v_2318432_25, v_2318472_25);
+Obj v_2318474_25 = makeCons(co->gc, v_2318429_25, v_2318473_25);
+Obj v_2318475_25 = makeCons(co->gc, v_2318426_25, v_2318474_25);
+Obj v_2318476_25 = makeCons(co->gc, v_2318423_25, v_2318475_25);
+Obj v_2318477_25 = makeCons(co->gc, v_2318420_25, v_2318476_25);
+Obj v_2318478_25 = makeCons(co->gc, v_2318417_25, v_2318477_25);
+Obj v_2318479_25 = makeCons(co->gc, v_2318414_25, v_2318478_25);
+Obj v_2318480_25 = primSet(co, getBinding(co, packageID, 128).name, v_2318479_25);
+Obj v_2318484_25 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v_2318487_25 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v_2318490_25 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v_2318495_25 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v_2318509_25 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 4, clofun13, 3, 0));
+Obj v_2318522_25 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun14, 1, 0));
+Obj v_2318533_25 = primSet(co, getBinding(co, packageID, 89).name, makeNative(co->gc, 4, clofun17, 3, 0));
+Obj v_2318543_25 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 4, clofun19, 3, 0));
+Obj v_2318560_25 = primSet(co, getBinding(co, packageID, 86).name, makeNative(co->gc, 4, clofun20, 2, 0));
+Obj v_2318762_25 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 5, clofun31, 4, 0));
+Obj v_2318773_25 = primSet(co, getBinding(co, packageID, 74).name, makeNative(co->gc, 4, clofun33, 2, 0));
+Obj v_2318784_25 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun35, 2, 0));
+Obj v_2318845_25 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun42, 1, 0));
+Obj v_2319020_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v_2319093_25 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun55, 2, 0));
+Obj v_2319096_25 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun56, 1, 0));
+Obj v_2319233_25 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun65, 2, 0));
+Obj v_2319256_25 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun68, 3, 0));
+Obj v_2319333_25 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 3, clofun72, 2, 0));
+Obj v_2319364_25 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun76, 3, 0));
+Obj v_2319370_25 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun79, 4, 0));
+Obj v_2319375_25 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v_2319384_25 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun83, 1, 0));
+Obj v_2319435_25 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun85, 2, 0));
+Obj v_2319443_25 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun86, 2, 0));
+Obj v_2319450_25 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun87, 2, 0));
+Obj v_2319455_25 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 4, clofun88, 2, 0));
+Obj v_2319461_25 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun89, 3, 0));
+Obj v_2319462_25 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun90, 2, 0));
+Obj v_2319469_25 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun92, 5, 0));
+Obj v_2319476_25 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun94, 5, 0));
+Obj v_2319763_25 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun107, 5, 0));
+Obj v_2319777_25 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun109, 5, 0));
+Obj v_2319799_25 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 8, clofun111, 5, 0));
+Obj v_2319801_25 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v_2319805_25 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v_2319808_25 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj v_2319809_25 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun115, 1, 0));
+Obj v_2319810_25 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun116, 1, 0));
+Obj v_2319811_25 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun117, 1, 0));
+Obj v_2319818_25 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 3, clofun118, 1, 0));
+Obj v_2319825_25 = primSet(co, getBinding(co, packageID, 33).name, makeNative(co->gc, 3, clofun119, 2, 0));
 saveCont(co, clofun155, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), getBinding(co, packageID, 31).name, makeNative(co->gc, 2, clofun120, 1, 0));
 return;
 }
 case 3:
 {
-Obj v_2318249_25= co->res;
+Obj v_2318370_25= co->res;
 saveCont(co, clofun155, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v_2318248_25= co->res;
+Obj v_2318369_25= co->res;
 saveCont(co, clofun155, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -480,9 +480,9 @@ case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v_2319939_25 = primGenSym(co);
-Obj v_globals = v_2319939_25;
-Obj v_2319940_25 = primSet(co, v_globals, Nil);
+Obj v_2320060_25 = primGenSym(co);
+Obj v_globals = v_2320060_25;
+Obj v_2320061_25 = primSet(co, v_globals, Nil);
 R[1] = v_from;
 R[2] = v_to;
 R[3] = v_globals;
@@ -492,7 +492,7 @@ return;
 }
 case 1:
 {
-Obj v_2319947_25= co->res;
+Obj v_2320068_25= co->res;
 Obj v_stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v_stream);
@@ -500,20 +500,20 @@ return;
 }
 case 2:
 {
-Obj v_2319946_25= co->res;
+Obj v_2320067_25= co->res;
 Obj v_bc = R[1];
 Obj v_stream = R[2];
 R[1] = v_stream;
 saveCont(co, clofun154, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2319946_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 24)), v_stream, v_bc, v_2320067_25);
 return;
 }
 case 3:
 {
-Obj v_2319945_25= co->res;
+Obj v_2320066_25= co->res;
 Obj v_globals = R[1];
 Obj v_bc = R[2];
-Obj v_stream = v_2319945_25;
+Obj v_stream = v_2320066_25;
 R[1] = v_bc;
 R[2] = v_stream;
 saveCont(co, clofun154, 2, R);
@@ -522,10 +522,10 @@ return;
 }
 case 4:
 {
-Obj v_2319944_25= co->res;
+Obj v_2320065_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_bc = v_2319944_25;
+Obj v_bc = v_2320065_25;
 R[1] = v_globals;
 R[2] = v_bc;
 saveCont(co, clofun154, 3, R);
@@ -534,36 +534,36 @@ return;
 }
 case 5:
 {
-Obj v_2319943_25= co->res;
-Obj v_2319941_25 = R[1];
+Obj v_2320064_25= co->res;
+Obj v_2320062_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 saveCont(co, clofun154, 4, R);
-coraCall1(co, v_2319941_25, v_2319943_25);
+coraCall1(co, v_2320062_25, v_2320064_25);
 return;
 }
 case 6:
 {
-Obj v_2319942_25= co->res;
-Obj v_2319941_25 = R[1];
+Obj v_2320063_25= co->res;
+Obj v_2320062_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2319941_25;
+R[1] = v_2320062_25;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun154, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2319942_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_2320063_25);
 return;
 }
 case 7:
 {
-Obj v_2319941_25= co->res;
+Obj v_2320062_25= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
-R[1] = v_2319941_25;
+R[1] = v_2320062_25;
 R[2] = v_to;
 R[3] = v_globals;
 saveCont(co, clofun154, 6, R);
@@ -584,7 +584,7 @@ return;
 }
 case 1:
 {
-Obj v_2319933_25= co->res;
+Obj v_2320054_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -592,7 +592,7 @@ return;
 }
 case 2:
 {
-Obj v_2319932_25= co->res;
+Obj v_2320053_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun153, 1, R);
@@ -601,7 +601,7 @@ return;
 }
 case 3:
 {
-Obj v_2319935_25= co->res;
+Obj v_2320056_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -609,7 +609,7 @@ return;
 }
 case 4:
 {
-Obj v_2319934_25= co->res;
+Obj v_2320055_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun153, 3, R);
@@ -618,7 +618,7 @@ return;
 }
 case 5:
 {
-Obj v_2319937_25= co->res;
+Obj v_2320058_25= co->res;
 Obj v_sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_sexp);
@@ -626,7 +626,7 @@ return;
 }
 case 6:
 {
-Obj v_2319936_25= co->res;
+Obj v_2320057_25= co->res;
 Obj v_sexp = R[1];
 R[1] = v_sexp;
 saveCont(co, clofun153, 5, R);
@@ -635,36 +635,36 @@ return;
 }
 case 7:
 {
-Obj v_2319929_25= co->res;
-Obj v_2318244_25 = R[1];
+Obj v_2320050_25= co->res;
+Obj v_2318365_25 = R[1];
 Obj v_sexp = R[2];
-if (True == v_2319929_25) {
-Obj v_2319930_25 = PRIM_CAR(v_sexp);
-Obj v_2319931_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319930_25);
-if (True == v_2319931_25) {
+if (True == v_2320050_25) {
+Obj v_2320051_25 = PRIM_CAR(v_sexp);
+Obj v_2320052_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2320051_25);
+if (True == v_2320052_25) {
 R[1] = v_sexp;
 saveCont(co, clofun153, 2, R);
-coraCall1(co, v_2318244_25, True);
+coraCall1(co, v_2318365_25, True);
 return;
 } else {
 R[1] = v_sexp;
 saveCont(co, clofun153, 4, R);
-coraCall1(co, v_2318244_25, False);
+coraCall1(co, v_2318365_25, False);
 return;
 }
 } else {
 R[1] = v_sexp;
 saveCont(co, clofun153, 6, R);
-coraCall1(co, v_2318244_25, False);
+coraCall1(co, v_2318365_25, False);
 return;
 }
 }
 case 8:
 {
-Obj v_2319926_25= co->res;
-Obj v_sexp = v_2319926_25;
-Obj v_2318244_25 = makeNative(co->gc, 2, clofun152, 1, 1, v_sexp);
-R[1] = v_2318244_25;
+Obj v_2320047_25= co->res;
+Obj v_sexp = v_2320047_25;
+Obj v_2318365_25 = makeNative(co->gc, 2, clofun152, 1, 1, v_sexp);
+R[1] = v_2318365_25;
 R[2] = v_sexp;
 saveCont(co, clofun153, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_sexp);
@@ -677,14 +677,14 @@ static void clofun152(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318245_25 = R[1];
-if (True == v_2318245_25) {
-Obj v_2319927_25 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v_2319927_25);
+Obj v_2318366_25 = R[1];
+if (True == v_2318366_25) {
+Obj v_2320048_25 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v_2320048_25);
 return;
 } else {
-Obj v_2319928_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v_2319928_25);
+Obj v_2320049_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v_2320049_25);
 return;
 }
 }
@@ -695,27 +695,27 @@ static void clofun151(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318074_25 = R[1];
-Obj v_2318075_25 = makeNative(co->gc, 1, clofun148, 0, 1, v_2318074_25);
-Obj v_2319919_25 = PRIM_ISCONS(v_2318074_25);
-if (True == v_2319919_25) {
-Obj v_2319920_25 = PRIM_CAR(v_2318074_25);
-Obj v_2319921_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319920_25);
-if (True == v_2319921_25) {
-Obj v_2319922_25 = PRIM_CDR(v_2318074_25);
-Obj v_more = v_2319922_25;
-Obj v_2319923_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
+Obj v_2318195_25 = R[1];
+Obj v_2318196_25 = makeNative(co->gc, 1, clofun148, 0, 1, v_2318195_25);
+Obj v_2320040_25 = PRIM_ISCONS(v_2318195_25);
+if (True == v_2320040_25) {
+Obj v_2320041_25 = PRIM_CAR(v_2318195_25);
+Obj v_2320042_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2320041_25);
+if (True == v_2320042_25) {
+Obj v_2320043_25 = PRIM_CDR(v_2318195_25);
+Obj v_more = v_2320043_25;
+Obj v_2320044_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319923_25, makeNative(co->gc, 2, clofun150, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2320044_25, makeNative(co->gc, 2, clofun150, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318075_25);
+coraCall0(co, v_2318196_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318075_25);
+coraCall0(co, v_2318196_25);
 return;
 }
 }
@@ -751,26 +751,26 @@ static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318076_25 = makeNative(co->gc, 1, clofun145, 0, 1, closureRef(R[0], 0));
-Obj v_2319914_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319914_25) {
-Obj v_2319915_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319916_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319915_25);
-if (True == v_2319916_25) {
-Obj v_2319917_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319917_25;
-Obj v_2319918_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
+Obj v_2318197_25 = makeNative(co->gc, 1, clofun145, 0, 1, closureRef(R[0], 0));
+Obj v_2320035_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2320035_25) {
+Obj v_2320036_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2320037_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2320036_25);
+if (True == v_2320037_25) {
+Obj v_2320038_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2320038_25;
+Obj v_2320039_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2319918_25, makeNative(co->gc, 2, clofun147, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_2320039_25, makeNative(co->gc, 2, clofun147, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318076_25);
+coraCall0(co, v_2318197_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318076_25);
+coraCall0(co, v_2318197_25);
 return;
 }
 }
@@ -806,9 +806,9 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319911_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2320032_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2319911_25, Nil, Nil, makeNative(co->gc, 3, clofun144, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_2320032_25, Nil, Nil, makeNative(co->gc, 3, clofun144, 2, 0));
 return;
 }
 }
@@ -826,9 +826,9 @@ return;
 }
 case 1:
 {
-Obj v_2319912_25= co->res;
-Obj v_2319913_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319912_25);
-coraReturn(co, v_2319913_25);
+Obj v_2320033_25= co->res;
+Obj v_2320034_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2320033_25);
+coraReturn(co, v_2320034_25);
 return;
 }
 }
@@ -856,50 +856,50 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318067_25 = R[1];
-Obj v_2318068_25 = R[2];
-Obj v_2318069_25 = makeNative(co->gc, 2, clofun141, 0, 2, v_2318067_25, v_2318068_25);
-Obj v_2319897_25 = PRIM_ISCONS(v_2318067_25);
-if (True == v_2319897_25) {
-Obj v_2319898_25 = PRIM_CAR(v_2318067_25);
-Obj v_2319899_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319898_25);
-if (True == v_2319899_25) {
-Obj v_2319900_25 = PRIM_CDR(v_2318067_25);
-Obj v_2319901_25 = PRIM_ISCONS(v_2319900_25);
-if (True == v_2319901_25) {
-Obj v_2319902_25 = PRIM_CDR(v_2318067_25);
-Obj v_2319903_25 = PRIM_CAR(v_2319902_25);
-Obj v_name = v_2319903_25;
-Obj v_2319904_25 = PRIM_CDR(v_2318067_25);
-Obj v_2319905_25 = PRIM_CDR(v_2319904_25);
-Obj v_more = v_2319905_25;
+Obj v_2318188_25 = R[1];
+Obj v_2318189_25 = R[2];
+Obj v_2318190_25 = makeNative(co->gc, 2, clofun141, 0, 2, v_2318188_25, v_2318189_25);
+Obj v_2320018_25 = PRIM_ISCONS(v_2318188_25);
+if (True == v_2320018_25) {
+Obj v_2320019_25 = PRIM_CAR(v_2318188_25);
+Obj v_2320020_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2320019_25);
+if (True == v_2320020_25) {
+Obj v_2320021_25 = PRIM_CDR(v_2318188_25);
+Obj v_2320022_25 = PRIM_ISCONS(v_2320021_25);
+if (True == v_2320022_25) {
+Obj v_2320023_25 = PRIM_CDR(v_2318188_25);
+Obj v_2320024_25 = PRIM_CAR(v_2320023_25);
+Obj v_name = v_2320024_25;
+Obj v_2320025_25 = PRIM_CDR(v_2318188_25);
+Obj v_2320026_25 = PRIM_CDR(v_2320025_25);
+Obj v_more = v_2320026_25;
 R[1] = v_name;
 saveCont(co, clofun142, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2318068_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, v_2318189_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318069_25);
+coraCall0(co, v_2318190_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318069_25);
+coraCall0(co, v_2318190_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318069_25);
+coraCall0(co, v_2318190_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319906_25= co->res;
+Obj v_2320027_25= co->res;
 Obj v_name = R[1];
-Obj v_2319907_25 = makeCons(co->gc, v_name, v_2319906_25);
-Obj v_2319908_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2319907_25);
-coraReturn(co, v_2319908_25);
+Obj v_2320028_25 = makeCons(co->gc, v_name, v_2320027_25);
+Obj v_2320029_25 = makeCons(co->gc, getBinding(co, packageID, 18).name, v_2320028_25);
+coraReturn(co, v_2320029_25);
 return;
 }
 }
@@ -909,69 +909,69 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318070_25 = makeNative(co->gc, 2, clofun140, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319876_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319876_25) {
-Obj v_2319877_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319878_25 = PRIM_ISCONS(v_2319877_25);
-if (True == v_2319878_25) {
-Obj v_2319879_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319880_25 = PRIM_CAR(v_2319879_25);
-Obj v_2319881_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319880_25);
-if (True == v_2319881_25) {
-Obj v_2319882_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319883_25 = PRIM_CDR(v_2319882_25);
-Obj v_2319884_25 = PRIM_ISCONS(v_2319883_25);
-if (True == v_2319884_25) {
-Obj v_2319885_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319886_25 = PRIM_CDR(v_2319885_25);
-Obj v_2319887_25 = PRIM_CAR(v_2319886_25);
-Obj v_pkg = v_2319887_25;
-Obj v_2319888_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319889_25 = PRIM_CDR(v_2319888_25);
-Obj v_2319890_25 = PRIM_CDR(v_2319889_25);
-Obj v_2319891_25 = PRIM_EQ(Nil, v_2319890_25);
-if (True == v_2319891_25) {
-Obj v_2319892_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319892_25;
-Obj v_2319893_25 = makeCons(co->gc, v_pkg, Nil);
-Obj v_2319894_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2319893_25);
-R[1] = v_2319894_25;
+Obj v_2318191_25 = makeNative(co->gc, 2, clofun140, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319997_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319997_25) {
+Obj v_2319998_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319999_25 = PRIM_ISCONS(v_2319998_25);
+if (True == v_2319999_25) {
+Obj v_2320000_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2320001_25 = PRIM_CAR(v_2320000_25);
+Obj v_2320002_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2320001_25);
+if (True == v_2320002_25) {
+Obj v_2320003_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2320004_25 = PRIM_CDR(v_2320003_25);
+Obj v_2320005_25 = PRIM_ISCONS(v_2320004_25);
+if (True == v_2320005_25) {
+Obj v_2320006_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2320007_25 = PRIM_CDR(v_2320006_25);
+Obj v_2320008_25 = PRIM_CAR(v_2320007_25);
+Obj v_pkg = v_2320008_25;
+Obj v_2320009_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2320010_25 = PRIM_CDR(v_2320009_25);
+Obj v_2320011_25 = PRIM_CDR(v_2320010_25);
+Obj v_2320012_25 = PRIM_EQ(Nil, v_2320011_25);
+if (True == v_2320012_25) {
+Obj v_2320013_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2320013_25;
+Obj v_2320014_25 = makeCons(co->gc, v_pkg, Nil);
+Obj v_2320015_25 = makeCons(co->gc, getBinding(co, packageID, 21).name, v_2320014_25);
+R[1] = v_2320015_25;
 saveCont(co, clofun141, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318070_25);
+coraCall0(co, v_2318191_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318070_25);
+coraCall0(co, v_2318191_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318070_25);
+coraCall0(co, v_2318191_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318070_25);
+coraCall0(co, v_2318191_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318070_25);
+coraCall0(co, v_2318191_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319895_25= co->res;
-Obj v_2319894_25 = R[1];
-Obj v_2319896_25 = makeCons(co->gc, v_2319894_25, v_2319895_25);
-coraReturn(co, v_2319896_25);
+Obj v_2320016_25= co->res;
+Obj v_2320015_25 = R[1];
+Obj v_2320017_25 = makeCons(co->gc, v_2320015_25, v_2320016_25);
+coraReturn(co, v_2320017_25);
 return;
 }
 }
@@ -981,48 +981,48 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318071_25 = makeNative(co->gc, 1, clofun139, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319864_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319864_25) {
-Obj v_2319865_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319866_25 = PRIM_ISCONS(v_2319865_25);
-if (True == v_2319866_25) {
-Obj v_2319867_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319868_25 = PRIM_CAR(v_2319867_25);
-Obj v_2319869_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319868_25);
-if (True == v_2319869_25) {
-Obj v_2319870_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319871_25 = PRIM_CDR(v_2319870_25);
-Obj v_symbols = v_2319871_25;
-Obj v_2319872_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319872_25;
-Obj v_2319873_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
-R[1] = v_2319873_25;
+Obj v_2318192_25 = makeNative(co->gc, 1, clofun139, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319985_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319985_25) {
+Obj v_2319986_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319987_25 = PRIM_ISCONS(v_2319986_25);
+if (True == v_2319987_25) {
+Obj v_2319988_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319989_25 = PRIM_CAR(v_2319988_25);
+Obj v_2319990_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319989_25);
+if (True == v_2319990_25) {
+Obj v_2319991_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319992_25 = PRIM_CDR(v_2319991_25);
+Obj v_symbols = v_2319992_25;
+Obj v_2319993_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319993_25;
+Obj v_2319994_25 = makeCons(co->gc, getBinding(co, packageID, 20).name, v_symbols);
+R[1] = v_2319994_25;
 saveCont(co, clofun140, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318071_25);
+coraCall0(co, v_2318192_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318071_25);
+coraCall0(co, v_2318192_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318071_25);
+coraCall0(co, v_2318192_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319874_25= co->res;
-Obj v_2319873_25 = R[1];
-Obj v_2319875_25 = makeCons(co->gc, v_2319873_25, v_2319874_25);
-coraReturn(co, v_2319875_25);
+Obj v_2319995_25= co->res;
+Obj v_2319994_25 = R[1];
+Obj v_2319996_25 = makeCons(co->gc, v_2319994_25, v_2319995_25);
+coraReturn(co, v_2319996_25);
 return;
 }
 }
@@ -1032,33 +1032,33 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318072_25 = makeNative(co->gc, 1, clofun138, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v_2319858_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319858_25) {
-Obj v_2319859_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319860_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319859_25);
-if (True == v_2319860_25) {
-Obj v_2319861_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319861_25;
+Obj v_2318193_25 = makeNative(co->gc, 1, clofun138, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v_2319979_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319979_25) {
+Obj v_2319980_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319981_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319980_25);
+if (True == v_2319981_25) {
+Obj v_2319982_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319982_25;
 saveCont(co, clofun139, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318072_25);
+coraCall0(co, v_2318193_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318072_25);
+coraCall0(co, v_2318193_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319862_25= co->res;
-Obj v_2319863_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319862_25);
-coraReturn(co, v_2319863_25);
+Obj v_2319983_25= co->res;
+Obj v_2319984_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_2319983_25);
+coraReturn(co, v_2319984_25);
 return;
 }
 }
@@ -1079,73 +1079,73 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318059_25 = R[1];
-Obj v_2318060_25 = R[2];
-Obj v_2318061_25 = R[3];
-Obj v_2318062_25 = R[4];
-Obj v_2319819_25 = PRIM_EQ(Nil, v_2318059_25);
-if (True == v_2319819_25) {
-R[1] = v_2318061_25;
-R[2] = v_2318062_25;
+Obj v_2318180_25 = R[1];
+Obj v_2318181_25 = R[2];
+Obj v_2318182_25 = R[3];
+Obj v_2318183_25 = R[4];
+Obj v_2319940_25 = PRIM_EQ(Nil, v_2318180_25);
+if (True == v_2319940_25) {
+R[1] = v_2318182_25;
+R[2] = v_2318183_25;
 saveCont(co, clofun137, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318060_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318181_25);
 return;
 } else {
-Obj v_2318064_25 = makeNative(co->gc, 1, clofun136, 0, 4, v_2318059_25, v_2318060_25, v_2318061_25, v_2318062_25);
-Obj v_2319846_25 = PRIM_ISCONS(v_2318059_25);
-if (True == v_2319846_25) {
-Obj v_2319847_25 = PRIM_CAR(v_2318059_25);
-Obj v_2319848_25 = PRIM_ISCONS(v_2319847_25);
-if (True == v_2319848_25) {
-Obj v_2319849_25 = PRIM_CAR(v_2318059_25);
-Obj v_2319850_25 = PRIM_CAR(v_2319849_25);
-Obj v_2319851_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319850_25);
-if (True == v_2319851_25) {
-Obj v_2319852_25 = PRIM_CAR(v_2318059_25);
-Obj v_2319853_25 = PRIM_CDR(v_2319852_25);
-Obj v_exp = v_2319853_25;
-Obj v_2319854_25 = PRIM_CDR(v_2318059_25);
-Obj v_more = v_2319854_25;
-Obj v_2319855_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
-Obj v_2319856_25 = makeCons(co->gc, v_2319855_25, v_2318060_25);
+Obj v_2318185_25 = makeNative(co->gc, 1, clofun136, 0, 4, v_2318180_25, v_2318181_25, v_2318182_25, v_2318183_25);
+Obj v_2319967_25 = PRIM_ISCONS(v_2318180_25);
+if (True == v_2319967_25) {
+Obj v_2319968_25 = PRIM_CAR(v_2318180_25);
+Obj v_2319969_25 = PRIM_ISCONS(v_2319968_25);
+if (True == v_2319969_25) {
+Obj v_2319970_25 = PRIM_CAR(v_2318180_25);
+Obj v_2319971_25 = PRIM_CAR(v_2319970_25);
+Obj v_2319972_25 = PRIM_EQ(getBinding(co, packageID, 10).name, v_2319971_25);
+if (True == v_2319972_25) {
+Obj v_2319973_25 = PRIM_CAR(v_2318180_25);
+Obj v_2319974_25 = PRIM_CDR(v_2319973_25);
+Obj v_exp = v_2319974_25;
+Obj v_2319975_25 = PRIM_CDR(v_2318180_25);
+Obj v_more = v_2319975_25;
+Obj v_2319976_25 = makeCons(co->gc, getBinding(co, packageID, 19).name, v_exp);
+Obj v_2319977_25 = makeCons(co->gc, v_2319976_25, v_2318181_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319856_25, v_2318061_25, v_2318062_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319977_25, v_2318182_25, v_2318183_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318064_25);
+coraCall0(co, v_2318185_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318064_25);
+coraCall0(co, v_2318185_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318064_25);
+coraCall0(co, v_2318185_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319821_25= co->res;
-Obj v_2318062_25 = R[1];
-Obj v_2319820_25 = R[2];
+Obj v_2319942_25= co->res;
+Obj v_2318183_25 = R[1];
+Obj v_2319941_25 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2318062_25, v_2319820_25, v_2319821_25);
+coraCall2(co, v_2318183_25, v_2319941_25, v_2319942_25);
 return;
 }
 case 2:
 {
-Obj v_2319820_25= co->res;
-Obj v_2318061_25 = R[1];
-Obj v_2318062_25 = R[2];
-R[1] = v_2318062_25;
-R[2] = v_2319820_25;
+Obj v_2319941_25= co->res;
+Obj v_2318182_25 = R[1];
+Obj v_2318183_25 = R[2];
+R[1] = v_2318183_25;
+R[2] = v_2319941_25;
 saveCont(co, clofun137, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318061_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318182_25);
 return;
 }
 }
@@ -1155,39 +1155,39 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318065_25 = makeNative(co->gc, 1, clofun135, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2319835_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319835_25) {
-Obj v_2319836_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319837_25 = PRIM_ISCONS(v_2319836_25);
-if (True == v_2319837_25) {
-Obj v_2319838_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319839_25 = PRIM_CAR(v_2319838_25);
-Obj v_2319840_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319839_25);
-if (True == v_2319840_25) {
-Obj v_2319841_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319842_25 = PRIM_CDR(v_2319841_25);
-Obj v_exp = v_2319842_25;
-Obj v_2319843_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319843_25;
-Obj v_2319844_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
-Obj v_2319845_25 = makeCons(co->gc, v_2319844_25, closureRef(R[0], 1));
+Obj v_2318186_25 = makeNative(co->gc, 1, clofun135, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2319956_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319956_25) {
+Obj v_2319957_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319958_25 = PRIM_ISCONS(v_2319957_25);
+if (True == v_2319958_25) {
+Obj v_2319959_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319960_25 = PRIM_CAR(v_2319959_25);
+Obj v_2319961_25 = PRIM_EQ(getBinding(co, packageID, 12).name, v_2319960_25);
+if (True == v_2319961_25) {
+Obj v_2319962_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319963_25 = PRIM_CDR(v_2319962_25);
+Obj v_exp = v_2319963_25;
+Obj v_2319964_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319964_25;
+Obj v_2319965_25 = makeCons(co->gc, getBinding(co, packageID, 11).name, v_exp);
+Obj v_2319966_25 = makeCons(co->gc, v_2319965_25, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319845_25, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319966_25, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318065_25);
+coraCall0(co, v_2318186_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318065_25);
+coraCall0(co, v_2318186_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318065_25);
+coraCall0(co, v_2318186_25);
 return;
 }
 }
@@ -1198,24 +1198,24 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319822_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319822_25) {
-Obj v_2319823_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_exp = v_2319823_25;
-Obj v_2319824_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_more = v_2319824_25;
-Obj v_2319825_25 = makeCons(co->gc, v_exp, Nil);
-Obj v_2319826_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319825_25);
-Obj v_2319827_25 = makeCons(co->gc, v_2319826_25, Nil);
-Obj v_2319828_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319827_25);
-Obj v_2319829_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v_2319830_25 = makeCons(co->gc, v_2319829_25, Nil);
-Obj v_2319831_25 = makeCons(co->gc, v_2319828_25, v_2319830_25);
-Obj v_2319832_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319831_25);
-Obj v_2319833_25 = makeCons(co->gc, v_2319832_25, closureRef(R[0], 1));
-Obj v_2319834_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
+Obj v_2319943_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319943_25) {
+Obj v_2319944_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_exp = v_2319944_25;
+Obj v_2319945_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_more = v_2319945_25;
+Obj v_2319946_25 = makeCons(co->gc, v_exp, Nil);
+Obj v_2319947_25 = makeCons(co->gc, getBinding(co, packageID, 14).name, v_2319946_25);
+Obj v_2319948_25 = makeCons(co->gc, v_2319947_25, Nil);
+Obj v_2319949_25 = makeCons(co->gc, getBinding(co, packageID, 15).name, v_2319948_25);
+Obj v_2319950_25 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v_2319951_25 = makeCons(co->gc, v_2319950_25, Nil);
+Obj v_2319952_25 = makeCons(co->gc, v_2319949_25, v_2319951_25);
+Obj v_2319953_25 = makeCons(co->gc, getBinding(co, packageID, 16).name, v_2319952_25);
+Obj v_2319954_25 = makeCons(co->gc, v_2319953_25, closureRef(R[0], 1));
+Obj v_2319955_25 = makeCons(co->gc, v_exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319833_25, v_2319834_25, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319954_25, v_2319955_25, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1230,37 +1230,37 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318053_25 = R[1];
-Obj v_2318054_25 = makeNative(co->gc, 1, clofun133, 0, 1, v_2318053_25);
-Obj v_2319809_25 = PRIM_ISCONS(v_2318053_25);
-if (True == v_2319809_25) {
-Obj v_2319810_25 = PRIM_CAR(v_2318053_25);
-Obj v_2319811_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319810_25);
-if (True == v_2319811_25) {
-Obj v_2319812_25 = PRIM_CDR(v_2318053_25);
-Obj v_2319813_25 = PRIM_ISCONS(v_2319812_25);
-if (True == v_2319813_25) {
-Obj v_2319814_25 = PRIM_CDR(v_2318053_25);
-Obj v_2319815_25 = PRIM_CAR(v_2319814_25);
-Obj v_2319816_25 = PRIM_CDR(v_2318053_25);
-Obj v_2319817_25 = PRIM_CDR(v_2319816_25);
-Obj v_remain = v_2319817_25;
+Obj v_2318174_25 = R[1];
+Obj v_2318175_25 = makeNative(co->gc, 1, clofun133, 0, 1, v_2318174_25);
+Obj v_2319930_25 = PRIM_ISCONS(v_2318174_25);
+if (True == v_2319930_25) {
+Obj v_2319931_25 = PRIM_CAR(v_2318174_25);
+Obj v_2319932_25 = PRIM_EQ(getBinding(co, packageID, 18).name, v_2319931_25);
+if (True == v_2319932_25) {
+Obj v_2319933_25 = PRIM_CDR(v_2318174_25);
+Obj v_2319934_25 = PRIM_ISCONS(v_2319933_25);
+if (True == v_2319934_25) {
+Obj v_2319935_25 = PRIM_CDR(v_2318174_25);
+Obj v_2319936_25 = PRIM_CAR(v_2319935_25);
+Obj v_2319937_25 = PRIM_CDR(v_2318174_25);
+Obj v_2319938_25 = PRIM_CDR(v_2319937_25);
+Obj v_remain = v_2319938_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318054_25);
+coraCall0(co, v_2318175_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318054_25);
+coraCall0(co, v_2318175_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318054_25);
+coraCall0(co, v_2318175_25);
 return;
 }
 }
@@ -1271,25 +1271,25 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318055_25 = makeNative(co->gc, 1, clofun132, 0, 1, closureRef(R[0], 0));
-Obj v_2319805_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319805_25) {
-Obj v_2319806_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319807_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319806_25);
-if (True == v_2319807_25) {
-Obj v_2319808_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319808_25;
+Obj v_2318176_25 = makeNative(co->gc, 1, clofun132, 0, 1, closureRef(R[0], 0));
+Obj v_2319926_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319926_25) {
+Obj v_2319927_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319928_25 = PRIM_EQ(getBinding(co, packageID, 19).name, v_2319927_25);
+if (True == v_2319928_25) {
+Obj v_2319929_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319929_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318055_25);
+coraCall0(co, v_2318176_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318055_25);
+coraCall0(co, v_2318176_25);
 return;
 }
 }
@@ -1300,36 +1300,36 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318056_25 = makeNative(co->gc, 2, clofun131, 0, 1, closureRef(R[0], 0));
-Obj v_2319796_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319796_25) {
-Obj v_2319797_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319798_25 = PRIM_ISCONS(v_2319797_25);
-if (True == v_2319798_25) {
-Obj v_2319799_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319800_25 = PRIM_CAR(v_2319799_25);
-Obj v_2319801_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319800_25);
-if (True == v_2319801_25) {
-Obj v_2319802_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319803_25 = PRIM_CDR(v_2319802_25);
-Obj v_2319804_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319804_25;
+Obj v_2318177_25 = makeNative(co->gc, 2, clofun131, 0, 1, closureRef(R[0], 0));
+Obj v_2319917_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319917_25) {
+Obj v_2319918_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319919_25 = PRIM_ISCONS(v_2319918_25);
+if (True == v_2319919_25) {
+Obj v_2319920_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319921_25 = PRIM_CAR(v_2319920_25);
+Obj v_2319922_25 = PRIM_EQ(getBinding(co, packageID, 20).name, v_2319921_25);
+if (True == v_2319922_25) {
+Obj v_2319923_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319924_25 = PRIM_CDR(v_2319923_25);
+Obj v_2319925_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319925_25;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318056_25);
+coraCall0(co, v_2318177_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318056_25);
+coraCall0(co, v_2318177_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318056_25);
+coraCall0(co, v_2318177_25);
 return;
 }
 }
@@ -1340,64 +1340,64 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318057_25 = makeNative(co->gc, 1, clofun130, 0, 0);
-Obj v_2319778_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319778_25) {
-Obj v_2319779_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319780_25 = PRIM_ISCONS(v_2319779_25);
-if (True == v_2319780_25) {
-Obj v_2319781_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319782_25 = PRIM_CAR(v_2319781_25);
-Obj v_2319783_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319782_25);
-if (True == v_2319783_25) {
-Obj v_2319784_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319785_25 = PRIM_CDR(v_2319784_25);
-Obj v_2319786_25 = PRIM_ISCONS(v_2319785_25);
-if (True == v_2319786_25) {
-Obj v_2319787_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319788_25 = PRIM_CDR(v_2319787_25);
-Obj v_2319789_25 = PRIM_CAR(v_2319788_25);
-Obj v_pkg = v_2319789_25;
-Obj v_2319790_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319791_25 = PRIM_CDR(v_2319790_25);
-Obj v_2319792_25 = PRIM_CDR(v_2319791_25);
-Obj v_2319793_25 = PRIM_EQ(Nil, v_2319792_25);
-if (True == v_2319793_25) {
-Obj v_2319794_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_remain = v_2319794_25;
+Obj v_2318178_25 = makeNative(co->gc, 1, clofun130, 0, 0);
+Obj v_2319899_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319899_25) {
+Obj v_2319900_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319901_25 = PRIM_ISCONS(v_2319900_25);
+if (True == v_2319901_25) {
+Obj v_2319902_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319903_25 = PRIM_CAR(v_2319902_25);
+Obj v_2319904_25 = PRIM_EQ(getBinding(co, packageID, 21).name, v_2319903_25);
+if (True == v_2319904_25) {
+Obj v_2319905_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319906_25 = PRIM_CDR(v_2319905_25);
+Obj v_2319907_25 = PRIM_ISCONS(v_2319906_25);
+if (True == v_2319907_25) {
+Obj v_2319908_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319909_25 = PRIM_CDR(v_2319908_25);
+Obj v_2319910_25 = PRIM_CAR(v_2319909_25);
+Obj v_pkg = v_2319910_25;
+Obj v_2319911_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319912_25 = PRIM_CDR(v_2319911_25);
+Obj v_2319913_25 = PRIM_CDR(v_2319912_25);
+Obj v_2319914_25 = PRIM_EQ(Nil, v_2319913_25);
+if (True == v_2319914_25) {
+Obj v_2319915_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_remain = v_2319915_25;
 R[1] = v_remain;
 saveCont(co, clofun131, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), v_pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318057_25);
+coraCall0(co, v_2318178_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318057_25);
+coraCall0(co, v_2318178_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318057_25);
+coraCall0(co, v_2318178_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318057_25);
+coraCall0(co, v_2318178_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318057_25);
+coraCall0(co, v_2318178_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319795_25= co->res;
+Obj v_2319916_25= co->res;
 Obj v_remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v_remain);
@@ -1432,7 +1432,7 @@ return;
 }
 case 1:
 {
-Obj v_2319776_25= co->res;
+Obj v_2319897_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1442,8 +1442,8 @@ return;
 }
 case 2:
 {
-Obj v_2319775_25= co->res;
-Obj v_2319772_25 = R[1];
+Obj v_2319896_25= co->res;
+Obj v_2319893_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
@@ -1451,32 +1451,32 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun129, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319772_25, v_2319775_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 26)), v_to, v_globals, v_2319893_25, v_2319896_25);
 return;
 }
 case 3:
 {
-Obj v_2319773_25= co->res;
-Obj v_2319772_25 = R[1];
+Obj v_2319894_25= co->res;
+Obj v_2319893_25 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
-Obj v_2319774_25 = PRIM_CAR(v_2319773_25);
-R[1] = v_2319772_25;
+Obj v_2319895_25 = PRIM_CAR(v_2319894_25);
+R[1] = v_2319893_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
 saveCont(co, clofun129, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319774_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_2319895_25);
 return;
 }
 case 4:
 {
-Obj v_2319772_25= co->res;
+Obj v_2319893_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-R[1] = v_2319772_25;
+R[1] = v_2319893_25;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
@@ -1486,7 +1486,7 @@ return;
 }
 case 5:
 {
-Obj v_2319771_25= co->res;
+Obj v_2319892_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1499,7 +1499,7 @@ return;
 }
 case 6:
 {
-Obj v_2319770_25= co->res;
+Obj v_2319891_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1512,7 +1512,7 @@ return;
 }
 case 7:
 {
-Obj v_2319767_25= co->res;
+Obj v_2319888_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1525,7 +1525,7 @@ return;
 }
 case 8:
 {
-Obj v_2319766_25= co->res;
+Obj v_2319887_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1538,7 +1538,7 @@ return;
 }
 case 9:
 {
-Obj v_2319765_25= co->res;
+Obj v_2319886_25= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1569,14 +1569,14 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v_2319768_25 = PRIM_CAR(v_group);
+Obj v_2319889_25 = PRIM_CAR(v_group);
 saveCont(co, clofun127, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319768_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 40)), closureRef(R[0], 0), v_2319889_25);
 return;
 }
 case 1:
 {
-Obj v_2319769_25= co->res;
+Obj v_2319890_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1602,7 +1602,7 @@ return;
 }
 case 1:
 {
-Obj v_2319763_25= co->res;
+Obj v_2319884_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1610,7 +1610,7 @@ return;
 }
 case 2:
 {
-Obj v_2319762_25= co->res;
+Obj v_2319883_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun126, 1, R);
@@ -1619,7 +1619,7 @@ return;
 }
 case 3:
 {
-Obj v_2319761_25= co->res;
+Obj v_2319882_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
@@ -1629,7 +1629,7 @@ return;
 }
 case 4:
 {
-Obj v_2319760_25= co->res;
+Obj v_2319881_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
@@ -1640,7 +1640,7 @@ return;
 }
 case 5:
 {
-Obj v_2319759_25= co->res;
+Obj v_2319880_25= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
@@ -1651,7 +1651,7 @@ return;
 }
 case 6:
 {
-Obj v_2319758_25= co->res;
+Obj v_2319879_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1663,7 +1663,7 @@ return;
 }
 case 7:
 {
-Obj v_2319757_25= co->res;
+Obj v_2319878_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1676,7 +1676,7 @@ return;
 }
 case 8:
 {
-Obj v_2319756_25= co->res;
+Obj v_2319877_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1689,7 +1689,7 @@ return;
 }
 case 9:
 {
-Obj v_2319747_25= co->res;
+Obj v_2319868_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1703,7 +1703,7 @@ return;
 }
 case 10:
 {
-Obj v_2319746_25= co->res;
+Obj v_2319867_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1718,7 +1718,7 @@ return;
 }
 case 11:
 {
-Obj v_2319745_25= co->res;
+Obj v_2319866_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1728,12 +1728,12 @@ R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun126, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319745_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, v_2319866_25);
 return;
 }
 case 12:
 {
-Obj v_2319744_25= co->res;
+Obj v_2319865_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1748,7 +1748,7 @@ return;
 }
 case 13:
 {
-Obj v_2319743_25= co->res;
+Obj v_2319864_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1763,7 +1763,7 @@ return;
 }
 case 14:
 {
-Obj v_2319742_25= co->res;
+Obj v_2319863_25= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1793,15 +1793,15 @@ return;
 }
 case 1:
 {
-Obj v_2319754_25= co->res;
+Obj v_2319875_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319755_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319755_25);
+Obj v_2319876_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319876_25);
 return;
 }
 case 2:
 {
-Obj v_2319753_25= co->res;
+Obj v_2319874_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun125, 1, R);
@@ -1810,25 +1810,25 @@ return;
 }
 case 3:
 {
-Obj v_2319752_25= co->res;
+Obj v_2319873_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun125, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319752_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_2319873_25);
 return;
 }
 case 4:
 {
-Obj v_2319751_25= co->res;
+Obj v_2319872_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun125, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319751_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_2319872_25);
 return;
 }
 case 5:
 {
-Obj v_2319750_25= co->res;
+Obj v_2319871_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -1838,7 +1838,7 @@ return;
 }
 case 6:
 {
-Obj v_2319749_25= co->res;
+Obj v_2319870_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1849,7 +1849,7 @@ return;
 }
 case 7:
 {
-Obj v_2319748_25= co->res;
+Obj v_2319869_25= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1868,8 +1868,8 @@ case 0:
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v_2319720_25 = PRIM_CAR(v_group);
-Obj v_label = v_2319720_25;
+Obj v_2319841_25 = PRIM_CAR(v_group);
+Obj v_label = v_2319841_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_to;
@@ -1879,7 +1879,7 @@ return;
 }
 case 1:
 {
-Obj v_2319740_25= co->res;
+Obj v_2319861_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1887,7 +1887,7 @@ return;
 }
 case 2:
 {
-Obj v_2319739_25= co->res;
+Obj v_2319860_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun124, 1, R);
@@ -1896,19 +1896,19 @@ return;
 }
 case 3:
 {
-Obj v_2319738_25= co->res;
+Obj v_2319859_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
 saveCont(co, clofun124, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun123, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319738_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun123, 2, 4, v_globals, v_label, v_lam, v_to), MAKE_NUMBER(1), v_2319859_25);
 return;
 }
 case 4:
 {
-Obj v_2319730_25= co->res;
+Obj v_2319851_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1923,7 +1923,7 @@ return;
 }
 case 5:
 {
-Obj v_2319729_25= co->res;
+Obj v_2319850_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
@@ -1938,7 +1938,7 @@ return;
 }
 case 6:
 {
-Obj v_2319728_25= co->res;
+Obj v_2319849_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1956,7 +1956,7 @@ return;
 }
 case 7:
 {
-Obj v_2319727_25= co->res;
+Obj v_2319848_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1976,7 +1976,7 @@ return;
 }
 case 8:
 {
-Obj v_2319726_25= co->res;
+Obj v_2319847_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -1995,7 +1995,7 @@ return;
 }
 case 9:
 {
-Obj v_2319725_25= co->res;
+Obj v_2319846_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2014,7 +2014,7 @@ return;
 }
 case 10:
 {
-Obj v_2319724_25= co->res;
+Obj v_2319845_25= co->res;
 Obj v_params = R[1];
 Obj v_first_2dstmt = R[2];
 Obj v_globals = R[3];
@@ -2033,13 +2033,13 @@ return;
 }
 case 11:
 {
-Obj v_2319723_25= co->res;
+Obj v_2319844_25= co->res;
 Obj v_params = R[1];
 Obj v_globals = R[2];
 Obj v_label = R[3];
 Obj v_lam = R[4];
 Obj v_to = R[5];
-Obj v_first_2dstmt = v_2319723_25;
+Obj v_first_2dstmt = v_2319844_25;
 R[1] = v_params;
 R[2] = v_first_2dstmt;
 R[3] = v_globals;
@@ -2052,12 +2052,12 @@ return;
 }
 case 12:
 {
-Obj v_2319722_25= co->res;
+Obj v_2319843_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_lam = R[3];
 Obj v_to = R[4];
-Obj v_params = v_2319722_25;
+Obj v_params = v_2319843_25;
 R[1] = v_params;
 R[2] = v_globals;
 R[3] = v_label;
@@ -2069,11 +2069,11 @@ return;
 }
 case 13:
 {
-Obj v_2319721_25= co->res;
+Obj v_2319842_25= co->res;
 Obj v_globals = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
-Obj v_lam = v_2319721_25;
+Obj v_lam = v_2319842_25;
 R[1] = v_globals;
 R[2] = v_label;
 R[3] = v_lam;
@@ -2099,15 +2099,15 @@ return;
 }
 case 1:
 {
-Obj v_2319736_25= co->res;
+Obj v_2319857_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319737_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319737_25);
+Obj v_2319858_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319858_25);
 return;
 }
 case 2:
 {
-Obj v_2319735_25= co->res;
+Obj v_2319856_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun123, 1, R);
@@ -2116,18 +2116,18 @@ return;
 }
 case 3:
 {
-Obj v_2319734_25= co->res;
+Obj v_2319855_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun123, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319734_25, closureRef(R[0], 3), v_cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v_2319855_25, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 41)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v_2319733_25= co->res;
+Obj v_2319854_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2138,7 +2138,7 @@ return;
 }
 case 5:
 {
-Obj v_2319732_25= co->res;
+Obj v_2319853_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2149,7 +2149,7 @@ return;
 }
 case 6:
 {
-Obj v_2319731_25= co->res;
+Obj v_2319852_25= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2165,23 +2165,23 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318049_25 = R[1];
-Obj v_2318050_25 = R[2];
-Obj v_2319714_25 = PRIM_EQ(Nil, v_2318050_25);
-if (True == v_2319714_25) {
+Obj v_2318170_25 = R[1];
+Obj v_2318171_25 = R[2];
+Obj v_2319835_25 = PRIM_EQ(Nil, v_2318171_25);
+if (True == v_2319835_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319715_25 = PRIM_ISCONS(v_2318050_25);
-if (True == v_2319715_25) {
-Obj v_2319716_25 = PRIM_CAR(v_2318050_25);
-Obj v_x = v_2319716_25;
-Obj v_2319717_25 = PRIM_CDR(v_2318050_25);
-Obj v_y = v_2319717_25;
-R[1] = v_2318049_25;
+Obj v_2319836_25 = PRIM_ISCONS(v_2318171_25);
+if (True == v_2319836_25) {
+Obj v_2319837_25 = PRIM_CAR(v_2318171_25);
+Obj v_x = v_2319837_25;
+Obj v_2319838_25 = PRIM_CDR(v_2318171_25);
+Obj v_y = v_2319838_25;
+R[1] = v_2318170_25;
 R[2] = v_y;
 saveCont(co, clofun122, 1, R);
-coraCall1(co, v_2318049_25, v_x);
+coraCall1(co, v_2318170_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2192,11 +2192,11 @@ return;
 }
 case 1:
 {
-Obj v_2319718_25= co->res;
-Obj v_2318049_25 = R[1];
+Obj v_2319839_25= co->res;
+Obj v_2318170_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2318049_25, v_y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 28)), v_2318170_25, v_y);
 return;
 }
 }
@@ -2215,38 +2215,38 @@ return;
 }
 case 1:
 {
-Obj v_2319712_25= co->res;
+Obj v_2319833_25= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319712_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v_2319833_25);
 return;
 }
 case 2:
 {
-Obj v_2319711_25= co->res;
+Obj v_2319832_25= co->res;
 saveCont(co, clofun121, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319711_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v_2319832_25);
 return;
 }
 case 3:
 {
-Obj v_2319710_25= co->res;
+Obj v_2319831_25= co->res;
 saveCont(co, clofun121, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319710_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v_2319831_25);
 return;
 }
 case 4:
 {
-Obj v_2319709_25= co->res;
+Obj v_2319830_25= co->res;
 saveCont(co, clofun121, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319709_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_2319830_25);
 return;
 }
 case 5:
 {
-Obj v_2319708_25= co->res;
+Obj v_2319829_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun121, 4, R);
-coraCall1(co, v_2319708_25, v_exp);
+coraCall1(co, v_2319829_25, v_exp);
 return;
 }
 }
@@ -2264,18 +2264,18 @@ return;
 }
 case 1:
 {
-Obj v_2319706_25= co->res;
+Obj v_2319827_25= co->res;
 Obj v_obj = R[1];
-Obj v_fns = v_2319706_25;
+Obj v_fns = v_2319827_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_obj, v_fns);
 return;
 }
 case 2:
 {
-Obj v_2319705_25= co->res;
+Obj v_2319826_25= co->res;
 Obj v_exp = R[1];
-Obj v_obj = v_2319705_25;
+Obj v_obj = v_2319826_25;
 R[1] = v_obj;
 saveCont(co, clofun120, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v_exp);
@@ -2288,23 +2288,23 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318045_25 = R[1];
-Obj v_2318046_25 = R[2];
-Obj v_2319698_25 = PRIM_EQ(Nil, v_2318046_25);
-if (True == v_2319698_25) {
-coraReturn(co, v_2318045_25);
+Obj v_2318166_25 = R[1];
+Obj v_2318167_25 = R[2];
+Obj v_2319819_25 = PRIM_EQ(Nil, v_2318167_25);
+if (True == v_2319819_25) {
+coraReturn(co, v_2318166_25);
 return;
 } else {
-Obj v_2319699_25 = PRIM_ISCONS(v_2318046_25);
-if (True == v_2319699_25) {
-Obj v_2319700_25 = PRIM_CAR(v_2318046_25);
-Obj v_hd = v_2319700_25;
-Obj v_2319701_25 = PRIM_CDR(v_2318046_25);
-Obj v_more = v_2319701_25;
-Obj v_2319702_25 = makeCons(co->gc, v_2318045_25, Nil);
-Obj v_2319703_25 = makeCons(co->gc, v_hd, v_2319702_25);
+Obj v_2319820_25 = PRIM_ISCONS(v_2318167_25);
+if (True == v_2319820_25) {
+Obj v_2319821_25 = PRIM_CAR(v_2318167_25);
+Obj v_hd = v_2319821_25;
+Obj v_2319822_25 = PRIM_CDR(v_2318167_25);
+Obj v_more = v_2319822_25;
+Obj v_2319823_25 = makeCons(co->gc, v_2318166_25, Nil);
+Obj v_2319824_25 = makeCons(co->gc, v_hd, v_2319823_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319703_25, v_more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319824_25, v_more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2328,7 +2328,7 @@ return;
 }
 case 1:
 {
-Obj v_2319696_25= co->res;
+Obj v_2319817_25= co->res;
 Obj v_v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
@@ -2336,9 +2336,9 @@ return;
 }
 case 2:
 {
-Obj v_2319695_25= co->res;
+Obj v_2319816_25= co->res;
 Obj v_v = R[1];
-Obj v_e2 = v_2319695_25;
+Obj v_e2 = v_2319816_25;
 R[1] = v_v;
 saveCont(co, clofun118, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_v, v_e2);
@@ -2346,9 +2346,9 @@ return;
 }
 case 3:
 {
-Obj v_2319694_25= co->res;
+Obj v_2319815_25= co->res;
 Obj v_v = R[1];
-Obj v_e1 = v_2319694_25;
+Obj v_e1 = v_2319815_25;
 R[1] = v_v;
 saveCont(co, clofun118, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v_e1);
@@ -2356,7 +2356,7 @@ return;
 }
 case 4:
 {
-Obj v_2319693_25= co->res;
+Obj v_2319814_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
@@ -2366,7 +2366,7 @@ return;
 }
 case 5:
 {
-Obj v_2319692_25= co->res;
+Obj v_2319813_25= co->res;
 Obj v_exp = R[1];
 Obj v_v = R[2];
 R[1] = v_exp;
@@ -2377,9 +2377,9 @@ return;
 }
 case 6:
 {
-Obj v_2319691_25= co->res;
+Obj v_2319812_25= co->res;
 Obj v_exp = R[1];
-Obj v_v = v_2319691_25;
+Obj v_v = v_2319812_25;
 R[1] = v_exp;
 R[2] = v_v;
 saveCont(co, clofun118, 5, R);
@@ -2431,9 +2431,9 @@ case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
-Obj v_2319685_25 = primGenSym(co);
-Obj v_used = v_2319685_25;
-Obj v_2319686_25 = primSet(co, v_used, Nil);
+Obj v_2319806_25 = primGenSym(co);
+Obj v_used = v_2319806_25;
+Obj v_2319807_25 = primSet(co, v_used, Nil);
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), Nil, v_used, v_globals, v_exp);
 return;
@@ -2455,7 +2455,7 @@ return;
 }
 case 1:
 {
-Obj v_2319683_25= co->res;
+Obj v_2319804_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
@@ -2463,7 +2463,7 @@ return;
 }
 case 2:
 {
-Obj v_2319682_25= co->res;
+Obj v_2319803_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
 saveCont(co, clofun113, 1, R);
@@ -2472,7 +2472,7 @@ return;
 }
 case 3:
 {
-Obj v_2319681_25= co->res;
+Obj v_2319802_25= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
@@ -2497,7 +2497,7 @@ return;
 }
 case 1:
 {
-Obj v_2319679_25= co->res;
+Obj v_2319800_25= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2511,136 +2511,136 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318039_25 = R[1];
-Obj v_2318040_25 = R[2];
-Obj v_2318041_25 = R[3];
-Obj v_2318042_25 = R[4];
-Obj v_2318043_25 = R[5];
-Obj v_2318044_25 = makeNative(co->gc, 1, clofun110, 0, 0);
-Obj v_2319657_25 = PRIM_ISCONS(v_2318043_25);
-if (True == v_2319657_25) {
-Obj v_2319658_25 = PRIM_CAR(v_2318043_25);
-Obj v_2319659_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319658_25);
-if (True == v_2319659_25) {
-Obj v_2319660_25 = PRIM_CDR(v_2318043_25);
-Obj v_2319661_25 = PRIM_ISCONS(v_2319660_25);
-if (True == v_2319661_25) {
-Obj v_2319662_25 = PRIM_CDR(v_2318043_25);
-Obj v_2319663_25 = PRIM_CAR(v_2319662_25);
-Obj v_var = v_2319663_25;
-Obj v_2319664_25 = PRIM_CDR(v_2318043_25);
-Obj v_2319665_25 = PRIM_CDR(v_2319664_25);
-Obj v_2319666_25 = PRIM_ISCONS(v_2319665_25);
-if (True == v_2319666_25) {
-Obj v_2319667_25 = PRIM_CDR(v_2318043_25);
-Obj v_2319668_25 = PRIM_CDR(v_2319667_25);
-Obj v_2319669_25 = PRIM_CAR(v_2319668_25);
-Obj v_body = v_2319669_25;
-Obj v_2319670_25 = PRIM_CDR(v_2318043_25);
-Obj v_2319671_25 = PRIM_CDR(v_2319670_25);
-Obj v_2319672_25 = PRIM_CDR(v_2319671_25);
-Obj v_fvs = v_2319672_25;
+Obj v_2318160_25 = R[1];
+Obj v_2318161_25 = R[2];
+Obj v_2318162_25 = R[3];
+Obj v_2318163_25 = R[4];
+Obj v_2318164_25 = R[5];
+Obj v_2318165_25 = makeNative(co->gc, 1, clofun110, 0, 0);
+Obj v_2319778_25 = PRIM_ISCONS(v_2318164_25);
+if (True == v_2319778_25) {
+Obj v_2319779_25 = PRIM_CAR(v_2318164_25);
+Obj v_2319780_25 = PRIM_EQ(getBinding(co, packageID, 95).name, v_2319779_25);
+if (True == v_2319780_25) {
+Obj v_2319781_25 = PRIM_CDR(v_2318164_25);
+Obj v_2319782_25 = PRIM_ISCONS(v_2319781_25);
+if (True == v_2319782_25) {
+Obj v_2319783_25 = PRIM_CDR(v_2318164_25);
+Obj v_2319784_25 = PRIM_CAR(v_2319783_25);
+Obj v_var = v_2319784_25;
+Obj v_2319785_25 = PRIM_CDR(v_2318164_25);
+Obj v_2319786_25 = PRIM_CDR(v_2319785_25);
+Obj v_2319787_25 = PRIM_ISCONS(v_2319786_25);
+if (True == v_2319787_25) {
+Obj v_2319788_25 = PRIM_CDR(v_2318164_25);
+Obj v_2319789_25 = PRIM_CDR(v_2319788_25);
+Obj v_2319790_25 = PRIM_CAR(v_2319789_25);
+Obj v_body = v_2319790_25;
+Obj v_2319791_25 = PRIM_CDR(v_2318164_25);
+Obj v_2319792_25 = PRIM_CDR(v_2319791_25);
+Obj v_2319793_25 = PRIM_CDR(v_2319792_25);
+Obj v_fvs = v_2319793_25;
 R[1] = v_var;
 R[2] = v_fvs;
-R[3] = v_2318039_25;
-R[4] = v_2318040_25;
-R[5] = v_2318041_25;
-R[6] = v_2318042_25;
+R[3] = v_2318160_25;
+R[4] = v_2318161_25;
+R[5] = v_2318162_25;
+R[6] = v_2318163_25;
 R[7] = v_body;
 saveCont(co, clofun111, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318042_25, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318163_25, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318044_25);
+coraCall0(co, v_2318165_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318044_25);
+coraCall0(co, v_2318165_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318044_25);
+coraCall0(co, v_2318165_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318044_25);
+coraCall0(co, v_2318165_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319677_25= co->res;
-Obj v_2318039_25 = R[1];
-Obj v_2318040_25 = R[2];
-Obj v_2318041_25 = R[3];
-Obj v_2318042_25 = R[4];
+Obj v_2319798_25= co->res;
+Obj v_2318160_25 = R[1];
+Obj v_2318161_25 = R[2];
+Obj v_2318162_25 = R[3];
+Obj v_2318163_25 = R[4];
 Obj v_body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v_2318039_25, v_2318040_25, v_2318041_25, v_2318042_25, v_body};
+Obj __args[5] = {v_2318160_25, v_2318161_25, v_2318162_25, v_2318163_25, v_body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v_2319676_25= co->res;
+Obj v_2319797_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2318039_25 = R[2];
-Obj v_2318040_25 = R[3];
-Obj v_2318041_25 = R[4];
-Obj v_2318042_25 = R[5];
+Obj v_2318160_25 = R[2];
+Obj v_2318161_25 = R[3];
+Obj v_2318162_25 = R[4];
+Obj v_2318163_25 = R[5];
 Obj v_body = R[6];
-R[1] = v_2318039_25;
-R[2] = v_2318040_25;
-R[3] = v_2318041_25;
-R[4] = v_2318042_25;
+R[1] = v_2318160_25;
+R[2] = v_2318161_25;
+R[3] = v_2318162_25;
+R[4] = v_2318163_25;
 R[5] = v_body;
 saveCont(co, clofun111, 1, R);
-Obj __args[5] = {v_2318039_25, v_2318040_25, v_2318041_25, v_2318042_25, v_fvs};
+Obj __args[5] = {v_2318160_25, v_2318161_25, v_2318162_25, v_2318163_25, v_fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v_2319675_25= co->res;
+Obj v_2319796_25= co->res;
 Obj v_fvs = R[1];
-Obj v_2318039_25 = R[2];
-Obj v_2318040_25 = R[3];
-Obj v_2318041_25 = R[4];
-Obj v_2318042_25 = R[5];
+Obj v_2318160_25 = R[2];
+Obj v_2318161_25 = R[3];
+Obj v_2318162_25 = R[4];
+Obj v_2318163_25 = R[5];
 Obj v_body = R[6];
 R[1] = v_fvs;
-R[2] = v_2318039_25;
-R[3] = v_2318040_25;
-R[4] = v_2318041_25;
-R[5] = v_2318042_25;
+R[2] = v_2318160_25;
+R[3] = v_2318161_25;
+R[4] = v_2318162_25;
+R[5] = v_2318163_25;
 R[6] = v_body;
 saveCont(co, clofun111, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318042_25, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318163_25, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v_2319673_25= co->res;
+Obj v_2319794_25= co->res;
 Obj v_var = R[1];
 Obj v_fvs = R[2];
-Obj v_2318039_25 = R[3];
-Obj v_2318040_25 = R[4];
-Obj v_2318041_25 = R[5];
-Obj v_2318042_25 = R[6];
+Obj v_2318160_25 = R[3];
+Obj v_2318161_25 = R[4];
+Obj v_2318162_25 = R[5];
+Obj v_2318163_25 = R[6];
 Obj v_body = R[7];
-Obj v_2319674_25 = PRIM_CAR(v_var);
+Obj v_2319795_25 = PRIM_CAR(v_var);
 R[1] = v_fvs;
-R[2] = v_2318039_25;
-R[3] = v_2318040_25;
-R[4] = v_2318041_25;
-R[5] = v_2318042_25;
+R[2] = v_2318160_25;
+R[3] = v_2318161_25;
+R[4] = v_2318162_25;
+R[5] = v_2318163_25;
 R[6] = v_body;
 saveCont(co, clofun111, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2318042_25, v_2319674_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), v_2318163_25, v_2319795_25);
 return;
 }
 }
@@ -2666,9 +2666,9 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v_2319643_25 = primGenSym(co);
-Obj v_generate_2dinst_2dlist_2dh = v_2319643_25;
-Obj v_2319654_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun108, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
+Obj v_2319764_25 = primGenSym(co);
+Obj v_generate_2dinst_2dlist_2dh = v_2319764_25;
+Obj v_2319775_25 = primSet(co, v_generate_2dinst_2dlist_2dh, makeNative(co->gc, 2, clofun108, 1, 5, v_globals, v_self, v_env, v_w, v_generate_2dinst_2dlist_2dh));
 R[1] = v_l;
 saveCont(co, clofun109, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_generate_2dinst_2dlist_2dh);
@@ -2676,10 +2676,10 @@ return;
 }
 case 1:
 {
-Obj v_2319655_25= co->res;
+Obj v_2319776_25= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319655_25, v_l);
+coraCall1(co, v_2319776_25, v_l);
 return;
 }
 }
@@ -2690,17 +2690,17 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2319644_25 = PRIM_EQ(Nil, v_x);
-if (True == v_2319644_25) {
+Obj v_2319765_25 = PRIM_EQ(Nil, v_x);
+if (True == v_2319765_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319645_25 = PRIM_ISCONS(v_x);
-if (True == v_2319645_25) {
-Obj v_2319646_25 = PRIM_CAR(v_x);
-Obj v_a = v_2319646_25;
-Obj v_2319647_25 = PRIM_CDR(v_x);
-Obj v_b = v_2319647_25;
+Obj v_2319766_25 = PRIM_ISCONS(v_x);
+if (True == v_2319766_25) {
+Obj v_2319767_25 = PRIM_CAR(v_x);
+Obj v_a = v_2319767_25;
+Obj v_2319768_25 = PRIM_CDR(v_x);
+Obj v_b = v_2319768_25;
 R[1] = v_b;
 saveCont(co, clofun108, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_a};
@@ -2715,15 +2715,15 @@ return;
 }
 case 1:
 {
-Obj v_2319652_25= co->res;
+Obj v_2319773_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319652_25, v_b);
+coraCall1(co, v_2319773_25, v_b);
 return;
 }
 case 2:
 {
-Obj v_2319651_25= co->res;
+Obj v_2319772_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun108, 1, R);
@@ -2732,18 +2732,18 @@ return;
 }
 case 3:
 {
-Obj v_2319653_25= co->res;
+Obj v_2319774_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall1(co, v_2319653_25, v_b);
+coraCall1(co, v_2319774_25, v_b);
 return;
 }
 case 4:
 {
-Obj v_2319649_25= co->res;
+Obj v_2319770_25= co->res;
 Obj v_b = R[1];
-Obj v_2319650_25 = primNot(v_2319649_25);
-if (True == v_2319650_25) {
+Obj v_2319771_25 = primNot(v_2319770_25);
+if (True == v_2319771_25) {
 R[1] = v_b;
 saveCont(co, clofun108, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
@@ -2758,7 +2758,7 @@ return;
 }
 case 5:
 {
-Obj v_2319648_25= co->res;
+Obj v_2319769_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun108, 4, R);
@@ -2777,9 +2777,9 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v_2319356_25 = primGenSym(co);
-Obj v_generate_2dinst_2dh = v_2319356_25;
-Obj v_2319640_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun106, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
+Obj v_2319477_25 = primGenSym(co);
+Obj v_generate_2dinst_2dh = v_2319477_25;
+Obj v_2319761_25 = primSet(co, v_generate_2dinst_2dh, makeNative(co->gc, 3, clofun106, 2, 4, v_self, v_generate_2dinst_2dh, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
 saveCont(co, clofun107, 1, R);
@@ -2788,11 +2788,11 @@ return;
 }
 case 1:
 {
-Obj v_2319641_25= co->res;
+Obj v_2319762_25= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v_2319641_25, v_x1, v_env1);
+coraCall2(co, v_2319762_25, v_x1, v_env1);
 return;
 }
 }
@@ -2804,71 +2804,71 @@ case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v_2319357_25 = primIsSymbol(v_x2);
-if (True == v_2319357_25) {
+Obj v_2319478_25 = primIsSymbol(v_x2);
+if (True == v_2319478_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v_2318025_25 = makeNative(co->gc, 2, clofun105, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v_2319627_25 = PRIM_ISCONS(v_x2);
-if (True == v_2319627_25) {
-Obj v_2319628_25 = PRIM_CAR(v_x2);
-Obj v_2319629_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319628_25);
-if (True == v_2319629_25) {
-Obj v_2319630_25 = PRIM_CDR(v_x2);
-Obj v_2319631_25 = PRIM_ISCONS(v_2319630_25);
-if (True == v_2319631_25) {
-Obj v_2319632_25 = PRIM_CDR(v_x2);
-Obj v_2319633_25 = PRIM_CAR(v_2319632_25);
-Obj v_x = v_2319633_25;
-Obj v_2319634_25 = PRIM_CDR(v_x2);
-Obj v_2319635_25 = PRIM_CDR(v_2319634_25);
-Obj v_2319636_25 = PRIM_EQ(Nil, v_2319635_25);
-if (True == v_2319636_25) {
+Obj v_2318145_25 = makeNative(co->gc, 2, clofun105, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v_2319748_25 = PRIM_ISCONS(v_x2);
+if (True == v_2319748_25) {
+Obj v_2319749_25 = PRIM_CAR(v_x2);
+Obj v_2319750_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2319749_25);
+if (True == v_2319750_25) {
+Obj v_2319751_25 = PRIM_CDR(v_x2);
+Obj v_2319752_25 = PRIM_ISCONS(v_2319751_25);
+if (True == v_2319752_25) {
+Obj v_2319753_25 = PRIM_CDR(v_x2);
+Obj v_2319754_25 = PRIM_CAR(v_2319753_25);
+Obj v_x = v_2319754_25;
+Obj v_2319755_25 = PRIM_CDR(v_x2);
+Obj v_2319756_25 = PRIM_CDR(v_2319755_25);
+Obj v_2319757_25 = PRIM_EQ(Nil, v_2319756_25);
+if (True == v_2319757_25) {
 R[1] = v_x;
 saveCont(co, clofun106, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318025_25);
+coraCall0(co, v_2318145_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318025_25);
+coraCall0(co, v_2318145_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318025_25);
+coraCall0(co, v_2318145_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318025_25);
+coraCall0(co, v_2318145_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2319639_25= co->res;
+Obj v_2319760_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v_2319638_25= co->res;
+Obj v_2319759_25= co->res;
 saveCont(co, clofun106, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319638_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_2319759_25);
 return;
 }
 case 3:
 {
-Obj v_2319637_25= co->res;
+Obj v_2319758_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun106, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 2));
@@ -2881,57 +2881,57 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318026_25 = makeNative(co->gc, 2, clofun104, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v_2319615_25 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v_2319615_25) {
-Obj v_2319616_25 = PRIM_CAR(closureRef(R[0], 4));
-Obj v_2319617_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319616_25);
-if (True == v_2319617_25) {
-Obj v_2319618_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319619_25 = PRIM_ISCONS(v_2319618_25);
-if (True == v_2319619_25) {
-Obj v_2319620_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319621_25 = PRIM_CAR(v_2319620_25);
-Obj v_idx = v_2319621_25;
-Obj v_2319622_25 = PRIM_CDR(closureRef(R[0], 4));
-Obj v_2319623_25 = PRIM_CDR(v_2319622_25);
-Obj v_2319624_25 = PRIM_EQ(Nil, v_2319623_25);
-if (True == v_2319624_25) {
+Obj v_2318146_25 = makeNative(co->gc, 2, clofun104, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v_2319736_25 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v_2319736_25) {
+Obj v_2319737_25 = PRIM_CAR(closureRef(R[0], 4));
+Obj v_2319738_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2319737_25);
+if (True == v_2319738_25) {
+Obj v_2319739_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319740_25 = PRIM_ISCONS(v_2319739_25);
+if (True == v_2319740_25) {
+Obj v_2319741_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319742_25 = PRIM_CAR(v_2319741_25);
+Obj v_idx = v_2319742_25;
+Obj v_2319743_25 = PRIM_CDR(closureRef(R[0], 4));
+Obj v_2319744_25 = PRIM_CDR(v_2319743_25);
+Obj v_2319745_25 = PRIM_EQ(Nil, v_2319744_25);
+if (True == v_2319745_25) {
 R[1] = v_idx;
 saveCont(co, clofun105, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318026_25);
+coraCall0(co, v_2318146_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318026_25);
+coraCall0(co, v_2318146_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318026_25);
+coraCall0(co, v_2318146_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318026_25);
+coraCall0(co, v_2318146_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319626_25= co->res;
+Obj v_2319747_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319625_25= co->res;
+Obj v_2319746_25= co->res;
 Obj v_idx = R[1];
 saveCont(co, clofun105, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_idx);
@@ -2944,24 +2944,24 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318027_25 = makeNative(co->gc, 4, clofun103, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2319591_25 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v_2319591_25) {
-Obj v_2319592_25 = PRIM_CAR(closureRef(R[0], 3));
-Obj v_2319593_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319592_25);
-if (True == v_2319593_25) {
-Obj v_2319594_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319595_25 = PRIM_ISCONS(v_2319594_25);
-if (True == v_2319595_25) {
-Obj v_2319596_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319597_25 = PRIM_CAR(v_2319596_25);
-Obj v_x = v_2319597_25;
-Obj v_2319598_25 = PRIM_CDR(closureRef(R[0], 3));
-Obj v_2319599_25 = PRIM_CDR(v_2319598_25);
-Obj v_2319600_25 = PRIM_EQ(Nil, v_2319599_25);
-if (True == v_2319600_25) {
-Obj v_2319601_25 = primIsSymbol(v_x);
-if (True == v_2319601_25) {
+Obj v_2318147_25 = makeNative(co->gc, 4, clofun103, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319712_25 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v_2319712_25) {
+Obj v_2319713_25 = PRIM_CAR(closureRef(R[0], 3));
+Obj v_2319714_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2319713_25);
+if (True == v_2319714_25) {
+Obj v_2319715_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319716_25 = PRIM_ISCONS(v_2319715_25);
+if (True == v_2319716_25) {
+Obj v_2319717_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319718_25 = PRIM_CAR(v_2319717_25);
+Obj v_x = v_2319718_25;
+Obj v_2319719_25 = PRIM_CDR(closureRef(R[0], 3));
+Obj v_2319720_25 = PRIM_CDR(v_2319719_25);
+Obj v_2319721_25 = PRIM_EQ(Nil, v_2319720_25);
+if (True == v_2319721_25) {
+Obj v_2319722_25 = primIsSymbol(v_x);
+if (True == v_2319722_25) {
 R[1] = v_x;
 saveCont(co, clofun104, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
@@ -2974,42 +2974,42 @@ return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318027_25);
+coraCall0(co, v_2318147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318027_25);
+coraCall0(co, v_2318147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318027_25);
+coraCall0(co, v_2318147_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318027_25);
+coraCall0(co, v_2318147_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319604_25= co->res;
+Obj v_2319725_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v_2319603_25= co->res;
+Obj v_2319724_25= co->res;
 saveCont(co, clofun104, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319603_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319724_25);
 return;
 }
 case 3:
 {
-Obj v_2319602_25= co->res;
+Obj v_2319723_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun104, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), v_x, closureRef(R[0], 4));
@@ -3017,14 +3017,14 @@ return;
 }
 case 4:
 {
-Obj v_2319607_25= co->res;
+Obj v_2319728_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v_2319606_25= co->res;
+Obj v_2319727_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun104, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_x);
@@ -3032,21 +3032,21 @@ return;
 }
 case 6:
 {
-Obj v_2319611_25= co->res;
+Obj v_2319732_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v_2319610_25= co->res;
+Obj v_2319731_25= co->res;
 saveCont(co, clofun104, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319610_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319731_25);
 return;
 }
 case 8:
 {
-Obj v_2319609_25= co->res;
+Obj v_2319730_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun104, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), v_x);
@@ -3054,35 +3054,35 @@ return;
 }
 case 9:
 {
-Obj v_2319605_25= co->res;
+Obj v_2319726_25= co->res;
 Obj v_x = R[1];
-if (True == v_2319605_25) {
+if (True == v_2319726_25) {
 R[1] = v_x;
 saveCont(co, clofun104, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v_2319608_25 = primIsString(v_x);
-if (True == v_2319608_25) {
+Obj v_2319729_25 = primIsString(v_x);
+if (True == v_2319729_25) {
 R[1] = v_x;
 saveCont(co, clofun104, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v_2319612_25 = PRIM_EQ(v_x, Nil);
-if (True == v_2319612_25) {
+Obj v_2319733_25 = PRIM_EQ(v_x, Nil);
+if (True == v_2319733_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v_2319613_25 = PRIM_EQ(v_x, True);
-if (True == v_2319613_25) {
+Obj v_2319734_25 = PRIM_EQ(v_x, True);
+if (True == v_2319734_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v_2319614_25 = PRIM_EQ(v_x, False);
-if (True == v_2319614_25) {
+Obj v_2319735_25 = PRIM_EQ(v_x, False);
+if (True == v_2319735_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3103,42 +3103,42 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318028_25 = makeNative(co->gc, 3, clofun102, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2319556_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319556_25) {
-Obj v_2319557_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319558_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319557_25);
-if (True == v_2319558_25) {
-Obj v_2319559_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319560_25 = PRIM_ISCONS(v_2319559_25);
-if (True == v_2319560_25) {
-Obj v_2319561_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319562_25 = PRIM_CAR(v_2319561_25);
-Obj v_a = v_2319562_25;
-Obj v_2319563_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319564_25 = PRIM_CDR(v_2319563_25);
-Obj v_2319565_25 = PRIM_ISCONS(v_2319564_25);
-if (True == v_2319565_25) {
-Obj v_2319566_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319567_25 = PRIM_CDR(v_2319566_25);
-Obj v_2319568_25 = PRIM_CAR(v_2319567_25);
-Obj v_b = v_2319568_25;
-Obj v_2319569_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319570_25 = PRIM_CDR(v_2319569_25);
-Obj v_2319571_25 = PRIM_CDR(v_2319570_25);
-Obj v_2319572_25 = PRIM_ISCONS(v_2319571_25);
-if (True == v_2319572_25) {
-Obj v_2319573_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319574_25 = PRIM_CDR(v_2319573_25);
-Obj v_2319575_25 = PRIM_CDR(v_2319574_25);
-Obj v_2319576_25 = PRIM_CAR(v_2319575_25);
-Obj v_c = v_2319576_25;
-Obj v_2319577_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319578_25 = PRIM_CDR(v_2319577_25);
-Obj v_2319579_25 = PRIM_CDR(v_2319578_25);
-Obj v_2319580_25 = PRIM_CDR(v_2319579_25);
-Obj v_2319581_25 = PRIM_EQ(Nil, v_2319580_25);
-if (True == v_2319581_25) {
+Obj v_2318148_25 = makeNative(co->gc, 3, clofun102, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319677_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319677_25) {
+Obj v_2319678_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319679_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319678_25);
+if (True == v_2319679_25) {
+Obj v_2319680_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319681_25 = PRIM_ISCONS(v_2319680_25);
+if (True == v_2319681_25) {
+Obj v_2319682_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319683_25 = PRIM_CAR(v_2319682_25);
+Obj v_a = v_2319683_25;
+Obj v_2319684_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319685_25 = PRIM_CDR(v_2319684_25);
+Obj v_2319686_25 = PRIM_ISCONS(v_2319685_25);
+if (True == v_2319686_25) {
+Obj v_2319687_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319688_25 = PRIM_CDR(v_2319687_25);
+Obj v_2319689_25 = PRIM_CAR(v_2319688_25);
+Obj v_b = v_2319689_25;
+Obj v_2319690_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319691_25 = PRIM_CDR(v_2319690_25);
+Obj v_2319692_25 = PRIM_CDR(v_2319691_25);
+Obj v_2319693_25 = PRIM_ISCONS(v_2319692_25);
+if (True == v_2319693_25) {
+Obj v_2319694_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319695_25 = PRIM_CDR(v_2319694_25);
+Obj v_2319696_25 = PRIM_CDR(v_2319695_25);
+Obj v_2319697_25 = PRIM_CAR(v_2319696_25);
+Obj v_c = v_2319697_25;
+Obj v_2319698_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319699_25 = PRIM_CDR(v_2319698_25);
+Obj v_2319700_25 = PRIM_CDR(v_2319699_25);
+Obj v_2319701_25 = PRIM_CDR(v_2319700_25);
+Obj v_2319702_25 = PRIM_EQ(Nil, v_2319701_25);
+if (True == v_2319702_25) {
 R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
@@ -3147,48 +3147,48 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_a, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318028_25);
+coraCall0(co, v_2318148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318028_25);
+coraCall0(co, v_2318148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318028_25);
+coraCall0(co, v_2318148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318028_25);
+coraCall0(co, v_2318148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318028_25);
+coraCall0(co, v_2318148_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318028_25);
+coraCall0(co, v_2318148_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319589_25= co->res;
+Obj v_2319710_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_2319590_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
+Obj v_2319711_25 = makeCons(co->gc, v_a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v_2319589_25, v_c, v_2319590_25);
+coraCall2(co, v_2319710_25, v_c, v_2319711_25);
 return;
 }
 case 2:
 {
-Obj v_2319588_25= co->res;
+Obj v_2319709_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
@@ -3199,7 +3199,7 @@ return;
 }
 case 3:
 {
-Obj v_2319587_25= co->res;
+Obj v_2319708_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 R[1] = v_a;
@@ -3210,19 +3210,19 @@ return;
 }
 case 4:
 {
-Obj v_2319586_25= co->res;
+Obj v_2319707_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun103, 3, R);
-coraCall2(co, v_2319586_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2319707_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v_2319585_25= co->res;
+Obj v_2319706_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3235,7 +3235,7 @@ return;
 }
 case 6:
 {
-Obj v_2319584_25= co->res;
+Obj v_2319705_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3248,7 +3248,7 @@ return;
 }
 case 7:
 {
-Obj v_2319583_25= co->res;
+Obj v_2319704_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3261,7 +3261,7 @@ return;
 }
 case 8:
 {
-Obj v_2319582_25= co->res;
+Obj v_2319703_25= co->res;
 Obj v_b = R[1];
 Obj v_a = R[2];
 Obj v_c = R[3];
@@ -3279,31 +3279,31 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318029_25 = makeNative(co->gc, 4, clofun101, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319526_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319526_25) {
-Obj v_2319527_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319528_25 = PRIM_ISCONS(v_2319527_25);
-if (True == v_2319528_25) {
-Obj v_2319529_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319530_25 = PRIM_CAR(v_2319529_25);
-Obj v_2319531_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2319530_25);
-if (True == v_2319531_25) {
-Obj v_2319532_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319533_25 = PRIM_CDR(v_2319532_25);
-Obj v_2319534_25 = PRIM_ISCONS(v_2319533_25);
-if (True == v_2319534_25) {
-Obj v_2319535_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319536_25 = PRIM_CDR(v_2319535_25);
-Obj v_2319537_25 = PRIM_CAR(v_2319536_25);
-Obj v_f = v_2319537_25;
-Obj v_2319538_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319539_25 = PRIM_CDR(v_2319538_25);
-Obj v_2319540_25 = PRIM_CDR(v_2319539_25);
-Obj v_2319541_25 = PRIM_EQ(Nil, v_2319540_25);
-if (True == v_2319541_25) {
-Obj v_2319542_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_args = v_2319542_25;
+Obj v_2318149_25 = makeNative(co->gc, 4, clofun101, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319647_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319647_25) {
+Obj v_2319648_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319649_25 = PRIM_ISCONS(v_2319648_25);
+if (True == v_2319649_25) {
+Obj v_2319650_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319651_25 = PRIM_CAR(v_2319650_25);
+Obj v_2319652_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2319651_25);
+if (True == v_2319652_25) {
+Obj v_2319653_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319654_25 = PRIM_CDR(v_2319653_25);
+Obj v_2319655_25 = PRIM_ISCONS(v_2319654_25);
+if (True == v_2319655_25) {
+Obj v_2319656_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319657_25 = PRIM_CDR(v_2319656_25);
+Obj v_2319658_25 = PRIM_CAR(v_2319657_25);
+Obj v_f = v_2319658_25;
+Obj v_2319659_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319660_25 = PRIM_CDR(v_2319659_25);
+Obj v_2319661_25 = PRIM_CDR(v_2319660_25);
+Obj v_2319662_25 = PRIM_EQ(Nil, v_2319661_25);
+if (True == v_2319662_25) {
+Obj v_2319663_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_args = v_2319663_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun102, 10, R);
@@ -3311,40 +3311,40 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318029_25);
+coraCall0(co, v_2318149_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318029_25);
+coraCall0(co, v_2318149_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318029_25);
+coraCall0(co, v_2318149_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318029_25);
+coraCall0(co, v_2318149_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318029_25);
+coraCall0(co, v_2318149_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319547_25= co->res;
+Obj v_2319668_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319546_25= co->res;
+Obj v_2319667_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun102, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3353,14 +3353,14 @@ return;
 }
 case 3:
 {
-Obj v_2319550_25= co->res;
+Obj v_2319671_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v_2319549_25= co->res;
+Obj v_2319670_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun102, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3369,14 +3369,14 @@ return;
 }
 case 5:
 {
-Obj v_2319553_25= co->res;
+Obj v_2319674_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v_2319552_25= co->res;
+Obj v_2319673_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun102, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3385,14 +3385,14 @@ return;
 }
 case 7:
 {
-Obj v_2319555_25= co->res;
+Obj v_2319676_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v_2319554_25= co->res;
+Obj v_2319675_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun102, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -3401,25 +3401,25 @@ return;
 }
 case 9:
 {
-Obj v_2319544_25= co->res;
+Obj v_2319665_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2319545_25 = PRIM_EQ(v_f, getBinding(co, packageID, 127).name);
-if (True == v_2319545_25) {
+Obj v_2319666_25 = PRIM_EQ(v_f, getBinding(co, packageID, 127).name);
+if (True == v_2319666_25) {
 R[1] = v_args;
 saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v_2319548_25 = PRIM_EQ(v_f, getBinding(co, packageID, 115).name);
-if (True == v_2319548_25) {
+Obj v_2319669_25 = PRIM_EQ(v_f, getBinding(co, packageID, 115).name);
+if (True == v_2319669_25) {
 R[1] = v_args;
 saveCont(co, clofun102, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v_2319551_25 = PRIM_EQ(v_f, getBinding(co, packageID, 124).name);
-if (True == v_2319551_25) {
+Obj v_2319672_25 = PRIM_EQ(v_f, getBinding(co, packageID, 124).name);
+if (True == v_2319672_25) {
 R[1] = v_args;
 saveCont(co, clofun102, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
@@ -3435,13 +3435,13 @@ return;
 }
 case 10:
 {
-Obj v_2319543_25= co->res;
+Obj v_2319664_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun102, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319543_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v_2319664_25);
 return;
 }
 }
@@ -3451,42 +3451,42 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318030_25 = makeNative(co->gc, 5, clofun100, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319491_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319491_25) {
-Obj v_2319492_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319493_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319492_25);
-if (True == v_2319493_25) {
-Obj v_2319494_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319495_25 = PRIM_ISCONS(v_2319494_25);
-if (True == v_2319495_25) {
-Obj v_2319496_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319497_25 = PRIM_CAR(v_2319496_25);
-Obj v_a = v_2319497_25;
-Obj v_2319498_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319499_25 = PRIM_CDR(v_2319498_25);
-Obj v_2319500_25 = PRIM_ISCONS(v_2319499_25);
-if (True == v_2319500_25) {
-Obj v_2319501_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319502_25 = PRIM_CDR(v_2319501_25);
-Obj v_2319503_25 = PRIM_CAR(v_2319502_25);
-Obj v_b = v_2319503_25;
-Obj v_2319504_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319505_25 = PRIM_CDR(v_2319504_25);
-Obj v_2319506_25 = PRIM_CDR(v_2319505_25);
-Obj v_2319507_25 = PRIM_ISCONS(v_2319506_25);
-if (True == v_2319507_25) {
-Obj v_2319508_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319509_25 = PRIM_CDR(v_2319508_25);
-Obj v_2319510_25 = PRIM_CDR(v_2319509_25);
-Obj v_2319511_25 = PRIM_CAR(v_2319510_25);
-Obj v_c = v_2319511_25;
-Obj v_2319512_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319513_25 = PRIM_CDR(v_2319512_25);
-Obj v_2319514_25 = PRIM_CDR(v_2319513_25);
-Obj v_2319515_25 = PRIM_CDR(v_2319514_25);
-Obj v_2319516_25 = PRIM_EQ(Nil, v_2319515_25);
-if (True == v_2319516_25) {
+Obj v_2318150_25 = makeNative(co->gc, 5, clofun100, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319612_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319612_25) {
+Obj v_2319613_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319614_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319613_25);
+if (True == v_2319614_25) {
+Obj v_2319615_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319616_25 = PRIM_ISCONS(v_2319615_25);
+if (True == v_2319616_25) {
+Obj v_2319617_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319618_25 = PRIM_CAR(v_2319617_25);
+Obj v_a = v_2319618_25;
+Obj v_2319619_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319620_25 = PRIM_CDR(v_2319619_25);
+Obj v_2319621_25 = PRIM_ISCONS(v_2319620_25);
+if (True == v_2319621_25) {
+Obj v_2319622_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319623_25 = PRIM_CDR(v_2319622_25);
+Obj v_2319624_25 = PRIM_CAR(v_2319623_25);
+Obj v_b = v_2319624_25;
+Obj v_2319625_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319626_25 = PRIM_CDR(v_2319625_25);
+Obj v_2319627_25 = PRIM_CDR(v_2319626_25);
+Obj v_2319628_25 = PRIM_ISCONS(v_2319627_25);
+if (True == v_2319628_25) {
+Obj v_2319629_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319630_25 = PRIM_CDR(v_2319629_25);
+Obj v_2319631_25 = PRIM_CDR(v_2319630_25);
+Obj v_2319632_25 = PRIM_CAR(v_2319631_25);
+Obj v_c = v_2319632_25;
+Obj v_2319633_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319634_25 = PRIM_CDR(v_2319633_25);
+Obj v_2319635_25 = PRIM_CDR(v_2319634_25);
+Obj v_2319636_25 = PRIM_CDR(v_2319635_25);
+Obj v_2319637_25 = PRIM_EQ(Nil, v_2319636_25);
+if (True == v_2319637_25) {
 R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
@@ -3495,53 +3495,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318030_25);
+coraCall0(co, v_2318150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318030_25);
+coraCall0(co, v_2318150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318030_25);
+coraCall0(co, v_2318150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318030_25);
+coraCall0(co, v_2318150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318030_25);
+coraCall0(co, v_2318150_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318030_25);
+coraCall0(co, v_2318150_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319525_25= co->res;
+Obj v_2319646_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v_2319524_25= co->res;
+Obj v_2319645_25= co->res;
 Obj v_c = R[1];
 saveCont(co, clofun101, 1, R);
-coraCall2(co, v_2319524_25, v_c, closureRef(R[0], 4));
+coraCall2(co, v_2319645_25, v_c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319523_25= co->res;
+Obj v_2319644_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun101, 2, R);
@@ -3550,7 +3550,7 @@ return;
 }
 case 4:
 {
-Obj v_2319522_25= co->res;
+Obj v_2319643_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun101, 3, R);
@@ -3559,17 +3559,17 @@ return;
 }
 case 5:
 {
-Obj v_2319521_25= co->res;
+Obj v_2319642_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_c;
 saveCont(co, clofun101, 4, R);
-coraCall2(co, v_2319521_25, v_b, closureRef(R[0], 4));
+coraCall2(co, v_2319642_25, v_b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v_2319520_25= co->res;
+Obj v_2319641_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
@@ -3580,7 +3580,7 @@ return;
 }
 case 7:
 {
-Obj v_2319519_25= co->res;
+Obj v_2319640_25= co->res;
 Obj v_b = R[1];
 Obj v_c = R[2];
 R[1] = v_b;
@@ -3591,19 +3591,19 @@ return;
 }
 case 8:
 {
-Obj v_2319518_25= co->res;
+Obj v_2319639_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
 R[1] = v_b;
 R[2] = v_c;
 saveCont(co, clofun101, 7, R);
-coraCall2(co, v_2319518_25, v_a, closureRef(R[0], 4));
+coraCall2(co, v_2319639_25, v_a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v_2319517_25= co->res;
+Obj v_2319638_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 Obj v_c = R[3];
@@ -3621,41 +3621,41 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318031_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v_2319453_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319453_25) {
-Obj v_2319454_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2319455_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319454_25);
-if (True == v_2319455_25) {
-Obj v_2319456_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319457_25 = PRIM_ISCONS(v_2319456_25);
-if (True == v_2319457_25) {
-Obj v_2319458_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319459_25 = PRIM_CAR(v_2319458_25);
-Obj v_label = v_2319459_25;
-Obj v_2319460_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319461_25 = PRIM_CDR(v_2319460_25);
-Obj v_2319462_25 = PRIM_ISCONS(v_2319461_25);
-if (True == v_2319462_25) {
-Obj v_2319463_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319464_25 = PRIM_CDR(v_2319463_25);
-Obj v_2319465_25 = PRIM_CAR(v_2319464_25);
-Obj v_nargs = v_2319465_25;
-Obj v_2319466_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319467_25 = PRIM_CDR(v_2319466_25);
-Obj v_2319468_25 = PRIM_CDR(v_2319467_25);
-Obj v_2319469_25 = PRIM_ISCONS(v_2319468_25);
-if (True == v_2319469_25) {
-Obj v_2319470_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319471_25 = PRIM_CDR(v_2319470_25);
-Obj v_2319472_25 = PRIM_CDR(v_2319471_25);
-Obj v_2319473_25 = PRIM_CAR(v_2319472_25);
-Obj v_nframe = v_2319473_25;
-Obj v_2319474_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2319475_25 = PRIM_CDR(v_2319474_25);
-Obj v_2319476_25 = PRIM_CDR(v_2319475_25);
-Obj v_2319477_25 = PRIM_CDR(v_2319476_25);
-Obj v_frees = v_2319477_25;
+Obj v_2318151_25 = makeNative(co->gc, 3, clofun99, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v_2319574_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319574_25) {
+Obj v_2319575_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2319576_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319575_25);
+if (True == v_2319576_25) {
+Obj v_2319577_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319578_25 = PRIM_ISCONS(v_2319577_25);
+if (True == v_2319578_25) {
+Obj v_2319579_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319580_25 = PRIM_CAR(v_2319579_25);
+Obj v_label = v_2319580_25;
+Obj v_2319581_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319582_25 = PRIM_CDR(v_2319581_25);
+Obj v_2319583_25 = PRIM_ISCONS(v_2319582_25);
+if (True == v_2319583_25) {
+Obj v_2319584_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319585_25 = PRIM_CDR(v_2319584_25);
+Obj v_2319586_25 = PRIM_CAR(v_2319585_25);
+Obj v_nargs = v_2319586_25;
+Obj v_2319587_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319588_25 = PRIM_CDR(v_2319587_25);
+Obj v_2319589_25 = PRIM_CDR(v_2319588_25);
+Obj v_2319590_25 = PRIM_ISCONS(v_2319589_25);
+if (True == v_2319590_25) {
+Obj v_2319591_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319592_25 = PRIM_CDR(v_2319591_25);
+Obj v_2319593_25 = PRIM_CDR(v_2319592_25);
+Obj v_2319594_25 = PRIM_CAR(v_2319593_25);
+Obj v_nframe = v_2319594_25;
+Obj v_2319595_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2319596_25 = PRIM_CDR(v_2319595_25);
+Obj v_2319597_25 = PRIM_CDR(v_2319596_25);
+Obj v_2319598_25 = PRIM_CDR(v_2319597_25);
+Obj v_frees = v_2319598_25;
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_nargs;
@@ -3665,40 +3665,40 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318031_25);
+coraCall0(co, v_2318151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318031_25);
+coraCall0(co, v_2318151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318031_25);
+coraCall0(co, v_2318151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318031_25);
+coraCall0(co, v_2318151_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318031_25);
+coraCall0(co, v_2318151_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319490_25= co->res;
+Obj v_2319611_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v_2319489_25= co->res;
+Obj v_2319610_25= co->res;
 Obj v_frees = R[1];
 saveCont(co, clofun100, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_frees};
@@ -3707,10 +3707,10 @@ return;
 }
 case 3:
 {
-Obj v_2319487_25= co->res;
+Obj v_2319608_25= co->res;
 Obj v_frees = R[1];
-Obj v_2319488_25 = primNot(v_2319487_25);
-if (True == v_2319488_25) {
+Obj v_2319609_25 = primNot(v_2319608_25);
+if (True == v_2319609_25) {
 R[1] = v_frees;
 saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -3724,7 +3724,7 @@ return;
 }
 case 4:
 {
-Obj v_2319486_25= co->res;
+Obj v_2319607_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun100, 3, R);
@@ -3733,16 +3733,16 @@ return;
 }
 case 5:
 {
-Obj v_2319485_25= co->res;
+Obj v_2319606_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319485_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_2319606_25);
 return;
 }
 case 6:
 {
-Obj v_2319484_25= co->res;
+Obj v_2319605_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun100, 5, R);
@@ -3751,7 +3751,7 @@ return;
 }
 case 7:
 {
-Obj v_2319483_25= co->res;
+Obj v_2319604_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun100, 6, R);
@@ -3760,7 +3760,7 @@ return;
 }
 case 8:
 {
-Obj v_2319482_25= co->res;
+Obj v_2319603_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_frees;
@@ -3770,7 +3770,7 @@ return;
 }
 case 9:
 {
-Obj v_2319481_25= co->res;
+Obj v_2319602_25= co->res;
 Obj v_nargs = R[1];
 Obj v_frees = R[2];
 R[1] = v_nargs;
@@ -3781,7 +3781,7 @@ return;
 }
 case 10:
 {
-Obj v_2319480_25= co->res;
+Obj v_2319601_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
@@ -3793,7 +3793,7 @@ return;
 }
 case 11:
 {
-Obj v_2319479_25= co->res;
+Obj v_2319600_25= co->res;
 Obj v_label = R[1];
 Obj v_nargs = R[2];
 Obj v_frees = R[3];
@@ -3806,7 +3806,7 @@ return;
 }
 case 12:
 {
-Obj v_2319478_25= co->res;
+Obj v_2319599_25= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_nargs = R[3];
@@ -3825,31 +3825,31 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318032_25 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v_2319432_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319432_25) {
-Obj v_2319433_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319434_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319433_25);
-if (True == v_2319434_25) {
-Obj v_2319435_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319436_25 = PRIM_ISCONS(v_2319435_25);
-if (True == v_2319436_25) {
-Obj v_2319437_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319438_25 = PRIM_CAR(v_2319437_25);
-Obj v_a = v_2319438_25;
-Obj v_2319439_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319440_25 = PRIM_CDR(v_2319439_25);
-Obj v_2319441_25 = PRIM_ISCONS(v_2319440_25);
-if (True == v_2319441_25) {
-Obj v_2319442_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319443_25 = PRIM_CDR(v_2319442_25);
-Obj v_2319444_25 = PRIM_CAR(v_2319443_25);
-Obj v_b = v_2319444_25;
-Obj v_2319445_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319446_25 = PRIM_CDR(v_2319445_25);
-Obj v_2319447_25 = PRIM_CDR(v_2319446_25);
-Obj v_2319448_25 = PRIM_EQ(Nil, v_2319447_25);
-if (True == v_2319448_25) {
+Obj v_2318152_25 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v_2319553_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319553_25) {
+Obj v_2319554_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319555_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319554_25);
+if (True == v_2319555_25) {
+Obj v_2319556_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319557_25 = PRIM_ISCONS(v_2319556_25);
+if (True == v_2319557_25) {
+Obj v_2319558_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319559_25 = PRIM_CAR(v_2319558_25);
+Obj v_a = v_2319559_25;
+Obj v_2319560_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319561_25 = PRIM_CDR(v_2319560_25);
+Obj v_2319562_25 = PRIM_ISCONS(v_2319561_25);
+if (True == v_2319562_25) {
+Obj v_2319563_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319564_25 = PRIM_CDR(v_2319563_25);
+Obj v_2319565_25 = PRIM_CAR(v_2319564_25);
+Obj v_b = v_2319565_25;
+Obj v_2319566_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319567_25 = PRIM_CDR(v_2319566_25);
+Obj v_2319568_25 = PRIM_CDR(v_2319567_25);
+Obj v_2319569_25 = PRIM_EQ(Nil, v_2319568_25);
+if (True == v_2319569_25) {
 R[1] = v_a;
 R[2] = v_b;
 saveCont(co, clofun99, 4, R);
@@ -3857,41 +3857,41 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), closureRef(R[0], 4))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318032_25);
+coraCall0(co, v_2318152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318032_25);
+coraCall0(co, v_2318152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318032_25);
+coraCall0(co, v_2318152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318032_25);
+coraCall0(co, v_2318152_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318032_25);
+coraCall0(co, v_2318152_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319452_25= co->res;
+Obj v_2319573_25= co->res;
 Obj v_b = R[1];
 co->ctx.sp = R;
-coraCall2(co, v_2319452_25, v_b, closureRef(R[0], 5));
+coraCall2(co, v_2319573_25, v_b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v_2319451_25= co->res;
+Obj v_2319572_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun99, 1, R);
@@ -3900,7 +3900,7 @@ return;
 }
 case 3:
 {
-Obj v_2319450_25= co->res;
+Obj v_2319571_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun99, 2, R);
@@ -3909,12 +3909,12 @@ return;
 }
 case 4:
 {
-Obj v_2319449_25= co->res;
+Obj v_2319570_25= co->res;
 Obj v_a = R[1];
 Obj v_b = R[2];
 R[1] = v_b;
 saveCont(co, clofun99, 3, R);
-coraCall2(co, v_2319449_25, v_a, closureRef(R[0], 5));
+coraCall2(co, v_2319570_25, v_a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3924,72 +3924,72 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318033_25 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319418_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319418_25) {
-Obj v_2319419_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319420_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319419_25);
-if (True == v_2319420_25) {
-Obj v_2319421_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319422_25 = PRIM_ISCONS(v_2319421_25);
-if (True == v_2319422_25) {
-Obj v_2319423_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319424_25 = PRIM_CAR(v_2319423_25);
-Obj v_x = v_2319424_25;
-Obj v_2319425_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319426_25 = PRIM_CDR(v_2319425_25);
-Obj v_2319427_25 = PRIM_EQ(Nil, v_2319426_25);
-if (True == v_2319427_25) {
+Obj v_2318153_25 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319539_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319539_25) {
+Obj v_2319540_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319541_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2319540_25);
+if (True == v_2319541_25) {
+Obj v_2319542_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319543_25 = PRIM_ISCONS(v_2319542_25);
+if (True == v_2319543_25) {
+Obj v_2319544_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319545_25 = PRIM_CAR(v_2319544_25);
+Obj v_x = v_2319545_25;
+Obj v_2319546_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319547_25 = PRIM_CDR(v_2319546_25);
+Obj v_2319548_25 = PRIM_EQ(Nil, v_2319547_25);
+if (True == v_2319548_25) {
 R[1] = v_x;
 saveCont(co, clofun98, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318033_25);
+coraCall0(co, v_2318153_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318033_25);
+coraCall0(co, v_2318153_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318033_25);
+coraCall0(co, v_2318153_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318033_25);
+coraCall0(co, v_2318153_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319431_25= co->res;
+Obj v_2319552_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2319430_25= co->res;
+Obj v_2319551_25= co->res;
 saveCont(co, clofun98, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v_2319429_25= co->res;
+Obj v_2319550_25= co->res;
 Obj v_x = R[1];
 saveCont(co, clofun98, 2, R);
-coraCall2(co, v_2319429_25, v_x, closureRef(R[0], 4));
+coraCall2(co, v_2319550_25, v_x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v_2319428_25= co->res;
+Obj v_2319549_25= co->res;
 Obj v_x = R[1];
 R[1] = v_x;
 saveCont(co, clofun98, 3, R);
@@ -4003,65 +4003,65 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318034_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319405_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2319405_25) {
-Obj v_2319406_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2319407_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2319406_25);
-if (True == v_2319407_25) {
-Obj v_2319408_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319409_25 = PRIM_ISCONS(v_2319408_25);
-if (True == v_2319409_25) {
-Obj v_2319410_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319411_25 = PRIM_CAR(v_2319410_25);
-Obj v_exp = v_2319411_25;
-Obj v_2319412_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2319413_25 = PRIM_CDR(v_2319412_25);
-Obj v_2319414_25 = PRIM_EQ(Nil, v_2319413_25);
-if (True == v_2319414_25) {
+Obj v_2318154_25 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319526_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2319526_25) {
+Obj v_2319527_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2319528_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2319527_25);
+if (True == v_2319528_25) {
+Obj v_2319529_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319530_25 = PRIM_ISCONS(v_2319529_25);
+if (True == v_2319530_25) {
+Obj v_2319531_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319532_25 = PRIM_CAR(v_2319531_25);
+Obj v_exp = v_2319532_25;
+Obj v_2319533_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2319534_25 = PRIM_CDR(v_2319533_25);
+Obj v_2319535_25 = PRIM_EQ(Nil, v_2319534_25);
+if (True == v_2319535_25) {
 R[1] = v_exp;
 saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318034_25);
+coraCall0(co, v_2318154_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318034_25);
+coraCall0(co, v_2318154_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318034_25);
+coraCall0(co, v_2318154_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318034_25);
+coraCall0(co, v_2318154_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319417_25= co->res;
+Obj v_2319538_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2319416_25= co->res;
+Obj v_2319537_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun97, 1, R);
-coraCall2(co, v_2319416_25, v_exp, closureRef(R[0], 4));
+coraCall2(co, v_2319537_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319415_25= co->res;
+Obj v_2319536_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun97, 2, R);
@@ -4075,30 +4075,30 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318035_25 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v_2319381_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319381_25) {
-Obj v_2319382_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319383_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319382_25);
-if (True == v_2319383_25) {
-Obj v_2319384_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319385_25 = PRIM_ISCONS(v_2319384_25);
-if (True == v_2319385_25) {
-Obj v_2319386_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319387_25 = PRIM_CAR(v_2319386_25);
-Obj v_exp = v_2319387_25;
-Obj v_2319388_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319389_25 = PRIM_CDR(v_2319388_25);
-Obj v_2319390_25 = PRIM_ISCONS(v_2319389_25);
-if (True == v_2319390_25) {
-Obj v_2319391_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319392_25 = PRIM_CDR(v_2319391_25);
-Obj v_2319393_25 = PRIM_CAR(v_2319392_25);
-Obj v_label = v_2319393_25;
-Obj v_2319394_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319395_25 = PRIM_CDR(v_2319394_25);
-Obj v_2319396_25 = PRIM_CDR(v_2319395_25);
-Obj v_fvs = v_2319396_25;
+Obj v_2318155_25 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v_2319502_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319502_25) {
+Obj v_2319503_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319504_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319503_25);
+if (True == v_2319504_25) {
+Obj v_2319505_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319506_25 = PRIM_ISCONS(v_2319505_25);
+if (True == v_2319506_25) {
+Obj v_2319507_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319508_25 = PRIM_CAR(v_2319507_25);
+Obj v_exp = v_2319508_25;
+Obj v_2319509_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319510_25 = PRIM_CDR(v_2319509_25);
+Obj v_2319511_25 = PRIM_ISCONS(v_2319510_25);
+if (True == v_2319511_25) {
+Obj v_2319512_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319513_25 = PRIM_CDR(v_2319512_25);
+Obj v_2319514_25 = PRIM_CAR(v_2319513_25);
+Obj v_label = v_2319514_25;
+Obj v_2319515_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319516_25 = PRIM_CDR(v_2319515_25);
+Obj v_2319517_25 = PRIM_CDR(v_2319516_25);
+Obj v_fvs = v_2319517_25;
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun96, 8, R);
@@ -4107,43 +4107,43 @@ coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318035_25);
+coraCall0(co, v_2318155_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318035_25);
+coraCall0(co, v_2318155_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318035_25);
+coraCall0(co, v_2318155_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318035_25);
+coraCall0(co, v_2318155_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319404_25= co->res;
+Obj v_2319525_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v_2319403_25= co->res;
+Obj v_2319524_25= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun96, 1, R);
-coraCall2(co, v_2319403_25, v_exp, closureRef(R[0], 4));
+coraCall2(co, v_2319524_25, v_exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v_2319402_25= co->res;
+Obj v_2319523_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun96, 2, R);
@@ -4152,7 +4152,7 @@ return;
 }
 case 4:
 {
-Obj v_2319401_25= co->res;
+Obj v_2319522_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun96, 3, R);
@@ -4161,7 +4161,7 @@ return;
 }
 case 5:
 {
-Obj v_2319400_25= co->res;
+Obj v_2319521_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
@@ -4171,7 +4171,7 @@ return;
 }
 case 6:
 {
-Obj v_2319399_25= co->res;
+Obj v_2319520_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
@@ -4182,7 +4182,7 @@ return;
 }
 case 7:
 {
-Obj v_2319398_25= co->res;
+Obj v_2319519_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
@@ -4193,7 +4193,7 @@ return;
 }
 case 8:
 {
-Obj v_2319397_25= co->res;
+Obj v_2319518_25= co->res;
 Obj v_label = R[1];
 Obj v_exp = R[2];
 R[1] = v_label;
@@ -4209,12 +4209,12 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319358_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319358_25) {
-Obj v_2319359_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2319359_25;
-Obj v_2319360_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2319360_25;
+Obj v_2319479_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319479_25) {
+Obj v_2319480_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319480_25;
+Obj v_2319481_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319481_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun95, 18, R);
@@ -4228,14 +4228,14 @@ return;
 }
 case 1:
 {
-Obj v_2319372_25= co->res;
+Obj v_2319493_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v_2319371_25= co->res;
+Obj v_2319492_25= co->res;
 Obj v_nargs = R[1];
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v_nargs);
@@ -4243,7 +4243,7 @@ return;
 }
 case 3:
 {
-Obj v_2319370_25= co->res;
+Obj v_2319491_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
 saveCont(co, clofun95, 2, R);
@@ -4252,17 +4252,17 @@ return;
 }
 case 4:
 {
-Obj v_2319369_25= co->res;
+Obj v_2319490_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_nargs;
 saveCont(co, clofun95, 3, R);
-coraCall2(co, v_2319369_25, v_f, closureRef(R[0], 4));
+coraCall2(co, v_2319490_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v_2319368_25= co->res;
+Obj v_2319489_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
@@ -4273,7 +4273,7 @@ return;
 }
 case 6:
 {
-Obj v_2319367_25= co->res;
+Obj v_2319488_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
@@ -4284,7 +4284,7 @@ return;
 }
 case 7:
 {
-Obj v_2319366_25= co->res;
+Obj v_2319487_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 R[1] = v_f;
@@ -4295,7 +4295,7 @@ return;
 }
 case 8:
 {
-Obj v_2319365_25= co->res;
+Obj v_2319486_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4308,7 +4308,7 @@ return;
 }
 case 9:
 {
-Obj v_2319364_25= co->res;
+Obj v_2319485_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4321,7 +4321,7 @@ return;
 }
 case 10:
 {
-Obj v_2319363_25= co->res;
+Obj v_2319484_25= co->res;
 Obj v_args = R[1];
 Obj v_f = R[2];
 Obj v_nargs = R[3];
@@ -4334,14 +4334,14 @@ return;
 }
 case 11:
 {
-Obj v_2319380_25= co->res;
+Obj v_2319501_25= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v_2319379_25= co->res;
+Obj v_2319500_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun95, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v_args};
@@ -4350,11 +4350,11 @@ return;
 }
 case 13:
 {
-Obj v_2319377_25= co->res;
+Obj v_2319498_25= co->res;
 Obj v_nargs = R[1];
 Obj v_args = R[2];
-Obj v_2319378_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
-if (True == v_2319378_25) {
+Obj v_2319499_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
+if (True == v_2319499_25) {
 R[1] = v_args;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -4368,19 +4368,19 @@ return;
 }
 case 14:
 {
-Obj v_2319376_25= co->res;
+Obj v_2319497_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
 R[1] = v_nargs;
 R[2] = v_args;
 saveCont(co, clofun95, 13, R);
-coraCall2(co, v_2319376_25, v_f, closureRef(R[0], 4));
+coraCall2(co, v_2319497_25, v_f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v_2319375_25= co->res;
+Obj v_2319496_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4393,7 +4393,7 @@ return;
 }
 case 16:
 {
-Obj v_2319374_25= co->res;
+Obj v_2319495_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4406,7 +4406,7 @@ return;
 }
 case 17:
 {
-Obj v_2319373_25= co->res;
+Obj v_2319494_25= co->res;
 Obj v_f = R[1];
 Obj v_nargs = R[2];
 Obj v_args = R[3];
@@ -4419,12 +4419,12 @@ return;
 }
 case 18:
 {
-Obj v_2319361_25= co->res;
+Obj v_2319482_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_nargs = v_2319361_25;
-Obj v_2319362_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
-if (True == v_2319362_25) {
+Obj v_nargs = v_2319482_25;
+Obj v_2319483_25 = PRIM_GT(v_nargs, MAKE_NUMBER(4));
+if (True == v_2319483_25) {
 R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
@@ -4473,15 +4473,15 @@ return;
 }
 case 1:
 {
-Obj v_2319353_25= co->res;
+Obj v_2319474_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319354_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319354_25);
+Obj v_2319475_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319475_25);
 return;
 }
 case 2:
 {
-Obj v_2319352_25= co->res;
+Obj v_2319473_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun93, 1, R);
@@ -4490,7 +4490,7 @@ return;
 }
 case 3:
 {
-Obj v_2319351_25= co->res;
+Obj v_2319472_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun93, 2, R);
@@ -4499,7 +4499,7 @@ return;
 }
 case 4:
 {
-Obj v_2319350_25= co->res;
+Obj v_2319471_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun93, 3, R);
@@ -4508,7 +4508,7 @@ return;
 }
 case 5:
 {
-Obj v_2319349_25= co->res;
+Obj v_2319470_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4550,15 +4550,15 @@ return;
 }
 case 1:
 {
-Obj v_2319346_25= co->res;
+Obj v_2319467_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319347_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v_2319347_25);
+Obj v_2319468_25 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v_2319468_25);
 return;
 }
 case 2:
 {
-Obj v_2319345_25= co->res;
+Obj v_2319466_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun91, 1, R);
@@ -4567,7 +4567,7 @@ return;
 }
 case 3:
 {
-Obj v_2319344_25= co->res;
+Obj v_2319465_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4578,7 +4578,7 @@ return;
 }
 case 4:
 {
-Obj v_2319343_25= co->res;
+Obj v_2319464_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4589,7 +4589,7 @@ return;
 }
 case 5:
 {
-Obj v_2319342_25= co->res;
+Obj v_2319463_25= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4630,24 +4630,24 @@ return;
 }
 case 1:
 {
-Obj v_2319335_25= co->res;
+Obj v_2319456_25= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v_2319335_25) {
+if (True == v_2319456_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2319336_25 = PRIM_CAR(v_globals);
-Obj v_2319337_25 = PRIM_EQ(v_sym, v_2319336_25);
-if (True == v_2319337_25) {
+Obj v_2319457_25 = PRIM_CAR(v_globals);
+Obj v_2319458_25 = PRIM_EQ(v_sym, v_2319457_25);
+if (True == v_2319458_25) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v_2319338_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v_2319339_25 = PRIM_CDR(v_globals);
+Obj v_2319459_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_2319460_25 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2319338_25, v_sym, v_2319339_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), v_2319459_25, v_sym, v_2319460_25);
 return;
 }
 }
@@ -4669,26 +4669,26 @@ return;
 }
 case 1:
 {
-Obj v_2319331_25= co->res;
+Obj v_2319452_25= co->res;
 Obj v_sym = R[1];
 Obj v_val = R[2];
 Obj v_globals = R[3];
-if (True == v_2319331_25) {
+if (True == v_2319452_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2319332_25 = makeCons(co->gc, v_sym, v_val);
-Obj v_2319333_25 = primSet(co, v_globals, v_2319332_25);
-coraReturn(co, v_2319333_25);
+Obj v_2319453_25 = makeCons(co->gc, v_sym, v_val);
+Obj v_2319454_25 = primSet(co, v_globals, v_2319453_25);
+coraReturn(co, v_2319454_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2319330_25= co->res;
+Obj v_2319451_25= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v_val = v_2319330_25;
+Obj v_val = v_2319451_25;
 R[1] = v_sym;
 R[2] = v_val;
 R[3] = v_globals;
@@ -4705,8 +4705,8 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v_2319323_25 = primGenSym(co);
-Obj v_tmp = v_2319323_25;
+Obj v_2319444_25 = primGenSym(co);
+Obj v_tmp = v_2319444_25;
 R[1] = v_x;
 R[2] = v_tmp;
 saveCont(co, clofun87, 1, R);
@@ -4715,14 +4715,14 @@ return;
 }
 case 1:
 {
-Obj v_2319324_25= co->res;
+Obj v_2319445_25= co->res;
 Obj v_x = R[1];
 Obj v_tmp = R[2];
-Obj v_2319325_25 = makeCons(co->gc, v_2319324_25, Nil);
-Obj v_2319326_25 = makeCons(co->gc, v_x, v_2319325_25);
-Obj v_2319327_25 = makeCons(co->gc, v_tmp, v_2319326_25);
-Obj v_2319328_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319327_25);
-coraReturn(co, v_2319328_25);
+Obj v_2319446_25 = makeCons(co->gc, v_2319445_25, Nil);
+Obj v_2319447_25 = makeCons(co->gc, v_x, v_2319446_25);
+Obj v_2319448_25 = makeCons(co->gc, v_tmp, v_2319447_25);
+Obj v_2319449_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319448_25);
+coraReturn(co, v_2319449_25);
 return;
 }
 }
@@ -4742,7 +4742,7 @@ return;
 }
 case 1:
 {
-Obj v_2319321_25= co->res;
+Obj v_2319442_25= co->res;
 Obj v_v = R[1];
 Obj v_cur1 = R[2];
 co->ctx.sp = R;
@@ -4751,28 +4751,28 @@ return;
 }
 case 2:
 {
-Obj v_2319316_25= co->res;
+Obj v_2319437_25= co->res;
 Obj v_val = R[1];
 Obj v_idx = R[2];
 Obj v_v = R[3];
-Obj v_cur = v_2319316_25;
-Obj v_2319317_25 = makeCons(co->gc, v_val, Nil);
-Obj v_2319318_25 = makeCons(co->gc, v_idx, v_2319317_25);
-Obj v_2319319_25 = makeCons(co->gc, v_2319318_25, v_cur);
-Obj v_cur1 = v_2319319_25;
-Obj v_2319320_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v_cur = v_2319437_25;
+Obj v_2319438_25 = makeCons(co->gc, v_val, Nil);
+Obj v_2319439_25 = makeCons(co->gc, v_idx, v_2319438_25);
+Obj v_2319440_25 = makeCons(co->gc, v_2319439_25, v_cur);
+Obj v_cur1 = v_2319440_25;
+Obj v_2319441_25 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
 R[1] = v_v;
 R[2] = v_cur1;
 saveCont(co, clofun86, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2319320_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v_2319441_25);
 return;
 }
 case 3:
 {
-Obj v_2319315_25= co->res;
+Obj v_2319436_25= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v_idx = v_2319315_25;
+Obj v_idx = v_2319436_25;
 R[1] = v_val;
 R[2] = v_idx;
 R[3] = v_v;
@@ -4787,121 +4787,121 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318020_25 = R[1];
-Obj v_2318021_25 = R[2];
-Obj v_2318022_25 = makeNative(co->gc, 1, clofun84, 0, 2, v_2318020_25, v_2318021_25);
-Obj v_2319266_25 = PRIM_ISCONS(v_2318021_25);
-if (True == v_2319266_25) {
-Obj v_2319267_25 = PRIM_CAR(v_2318021_25);
-Obj v_2319268_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319267_25);
-if (True == v_2319268_25) {
-Obj v_2319269_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319270_25 = PRIM_ISCONS(v_2319269_25);
-if (True == v_2319270_25) {
-Obj v_2319271_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319272_25 = PRIM_CAR(v_2319271_25);
-Obj v_2319273_25 = PRIM_ISCONS(v_2319272_25);
-if (True == v_2319273_25) {
-Obj v_2319274_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319275_25 = PRIM_CAR(v_2319274_25);
-Obj v_2319276_25 = PRIM_CAR(v_2319275_25);
-Obj v_2319277_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319276_25);
-if (True == v_2319277_25) {
-Obj v_2319278_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319279_25 = PRIM_CAR(v_2319278_25);
-Obj v_2319280_25 = PRIM_CDR(v_2319279_25);
-Obj v_2319281_25 = PRIM_ISCONS(v_2319280_25);
-if (True == v_2319281_25) {
-Obj v_2319282_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319283_25 = PRIM_CAR(v_2319282_25);
-Obj v_2319284_25 = PRIM_CDR(v_2319283_25);
-Obj v_2319285_25 = PRIM_CAR(v_2319284_25);
-Obj v_params = v_2319285_25;
-Obj v_2319286_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319287_25 = PRIM_CAR(v_2319286_25);
-Obj v_2319288_25 = PRIM_CDR(v_2319287_25);
-Obj v_2319289_25 = PRIM_CDR(v_2319288_25);
-Obj v_2319290_25 = PRIM_ISCONS(v_2319289_25);
-if (True == v_2319290_25) {
-Obj v_2319291_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319292_25 = PRIM_CAR(v_2319291_25);
-Obj v_2319293_25 = PRIM_CDR(v_2319292_25);
-Obj v_2319294_25 = PRIM_CDR(v_2319293_25);
-Obj v_2319295_25 = PRIM_CAR(v_2319294_25);
-Obj v_body = v_2319295_25;
-Obj v_2319296_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319297_25 = PRIM_CAR(v_2319296_25);
-Obj v_2319298_25 = PRIM_CDR(v_2319297_25);
-Obj v_2319299_25 = PRIM_CDR(v_2319298_25);
-Obj v_2319300_25 = PRIM_CDR(v_2319299_25);
-Obj v_2319301_25 = PRIM_EQ(Nil, v_2319300_25);
-if (True == v_2319301_25) {
-Obj v_2319302_25 = PRIM_CDR(v_2318021_25);
-Obj v_2319303_25 = PRIM_CDR(v_2319302_25);
-Obj v_fvs = v_2319303_25;
-R[1] = v_2318020_25;
+Obj v_2318139_25 = R[1];
+Obj v_2318140_25 = R[2];
+Obj v_2318141_25 = makeNative(co->gc, 1, clofun84, 0, 2, v_2318139_25, v_2318140_25);
+Obj v_2319387_25 = PRIM_ISCONS(v_2318140_25);
+if (True == v_2319387_25) {
+Obj v_2319388_25 = PRIM_CAR(v_2318140_25);
+Obj v_2319389_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319388_25);
+if (True == v_2319389_25) {
+Obj v_2319390_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319391_25 = PRIM_ISCONS(v_2319390_25);
+if (True == v_2319391_25) {
+Obj v_2319392_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319393_25 = PRIM_CAR(v_2319392_25);
+Obj v_2319394_25 = PRIM_ISCONS(v_2319393_25);
+if (True == v_2319394_25) {
+Obj v_2319395_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319396_25 = PRIM_CAR(v_2319395_25);
+Obj v_2319397_25 = PRIM_CAR(v_2319396_25);
+Obj v_2319398_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319397_25);
+if (True == v_2319398_25) {
+Obj v_2319399_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319400_25 = PRIM_CAR(v_2319399_25);
+Obj v_2319401_25 = PRIM_CDR(v_2319400_25);
+Obj v_2319402_25 = PRIM_ISCONS(v_2319401_25);
+if (True == v_2319402_25) {
+Obj v_2319403_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319404_25 = PRIM_CAR(v_2319403_25);
+Obj v_2319405_25 = PRIM_CDR(v_2319404_25);
+Obj v_2319406_25 = PRIM_CAR(v_2319405_25);
+Obj v_params = v_2319406_25;
+Obj v_2319407_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319408_25 = PRIM_CAR(v_2319407_25);
+Obj v_2319409_25 = PRIM_CDR(v_2319408_25);
+Obj v_2319410_25 = PRIM_CDR(v_2319409_25);
+Obj v_2319411_25 = PRIM_ISCONS(v_2319410_25);
+if (True == v_2319411_25) {
+Obj v_2319412_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319413_25 = PRIM_CAR(v_2319412_25);
+Obj v_2319414_25 = PRIM_CDR(v_2319413_25);
+Obj v_2319415_25 = PRIM_CDR(v_2319414_25);
+Obj v_2319416_25 = PRIM_CAR(v_2319415_25);
+Obj v_body = v_2319416_25;
+Obj v_2319417_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319418_25 = PRIM_CAR(v_2319417_25);
+Obj v_2319419_25 = PRIM_CDR(v_2319418_25);
+Obj v_2319420_25 = PRIM_CDR(v_2319419_25);
+Obj v_2319421_25 = PRIM_CDR(v_2319420_25);
+Obj v_2319422_25 = PRIM_EQ(Nil, v_2319421_25);
+if (True == v_2319422_25) {
+Obj v_2319423_25 = PRIM_CDR(v_2318140_25);
+Obj v_2319424_25 = PRIM_CDR(v_2319423_25);
+Obj v_fvs = v_2319424_25;
+R[1] = v_2318139_25;
 R[2] = v_params;
 R[3] = v_fvs;
 saveCont(co, clofun85, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2318020_25, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_2318139_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318022_25);
+coraCall0(co, v_2318141_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319309_25= co->res;
+Obj v_2319430_25= co->res;
 Obj v_nframe = R[1];
 Obj v_fvs = R[2];
 Obj v_cur = R[3];
-Obj v_2319310_25 = makeCons(co->gc, v_nframe, v_fvs);
-Obj v_2319311_25 = makeCons(co->gc, v_2319309_25, v_2319310_25);
-Obj v_2319312_25 = makeCons(co->gc, v_cur, v_2319311_25);
-Obj v_2319313_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319312_25);
-coraReturn(co, v_2319313_25);
+Obj v_2319431_25 = makeCons(co->gc, v_nframe, v_fvs);
+Obj v_2319432_25 = makeCons(co->gc, v_2319430_25, v_2319431_25);
+Obj v_2319433_25 = makeCons(co->gc, v_cur, v_2319432_25);
+Obj v_2319434_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319433_25);
+coraReturn(co, v_2319434_25);
 return;
 }
 case 2:
 {
-Obj v_2319308_25= co->res;
+Obj v_2319429_25= co->res;
 Obj v_params = R[1];
 Obj v_nframe = R[2];
 Obj v_fvs = R[3];
@@ -4915,30 +4915,30 @@ return;
 }
 case 3:
 {
-Obj v_2319307_25= co->res;
-Obj v_2318020_25 = R[1];
+Obj v_2319428_25= co->res;
+Obj v_2318139_25 = R[1];
 Obj v_body2 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
 Obj v_cur = R[5];
-Obj v_nframe = v_2319307_25;
+Obj v_nframe = v_2319428_25;
 R[1] = v_params;
 R[2] = v_nframe;
 R[3] = v_fvs;
 R[4] = v_cur;
 saveCont(co, clofun85, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2318020_25, v_body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v_2318139_25, v_body2);
 return;
 }
 case 4:
 {
-Obj v_2319306_25= co->res;
-Obj v_2318020_25 = R[1];
+Obj v_2319427_25= co->res;
+Obj v_2318139_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
 Obj v_cur = R[4];
-Obj v_body2 = v_2319306_25;
-R[1] = v_2318020_25;
+Obj v_body2 = v_2319427_25;
+R[1] = v_2318139_25;
 R[2] = v_body2;
 R[3] = v_params;
 R[4] = v_fvs;
@@ -4949,13 +4949,13 @@ return;
 }
 case 5:
 {
-Obj v_2319305_25= co->res;
+Obj v_2319426_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2318020_25 = R[2];
+Obj v_2318139_25 = R[2];
 Obj v_params = R[3];
 Obj v_fvs = R[4];
-Obj v_cur = v_2319305_25;
-R[1] = v_2318020_25;
+Obj v_cur = v_2319426_25;
+R[1] = v_2318139_25;
 R[2] = v_params;
 R[3] = v_fvs;
 R[4] = v_cur;
@@ -4965,17 +4965,17 @@ return;
 }
 case 6:
 {
-Obj v_2319304_25= co->res;
-Obj v_2318020_25 = R[1];
+Obj v_2319425_25= co->res;
+Obj v_2318139_25 = R[1];
 Obj v_params = R[2];
 Obj v_fvs = R[3];
-Obj v_body1 = v_2319304_25;
+Obj v_body1 = v_2319425_25;
 R[1] = v_body1;
-R[2] = v_2318020_25;
+R[2] = v_2318139_25;
 R[3] = v_params;
 R[4] = v_fvs;
 saveCont(co, clofun85, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2318020_25, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_2318139_25, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4985,8 +4985,8 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319264_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2319264_25) {
+Obj v_2319385_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2319385_25) {
 saveCont(co, clofun84, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4997,9 +4997,9 @@ return;
 }
 case 1:
 {
-Obj v_2319265_25= co->res;
+Obj v_2319386_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319265_25, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319386_25, closureRef(R[0], 1));
 return;
 }
 }
@@ -5017,30 +5017,30 @@ return;
 }
 case 1:
 {
-Obj v_2319262_25= co->res;
-Obj v_2319261_25 = R[1];
+Obj v_2319383_25= co->res;
+Obj v_2319382_25 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun82, 2, 0), v_2319261_25, v_2319262_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), makeNative(co->gc, 3, clofun82, 2, 0), v_2319382_25, v_2319383_25);
 return;
 }
 case 2:
 {
-Obj v_2319256_25= co->res;
+Obj v_2319377_25= co->res;
 Obj v_lam = R[1];
-Obj v_nargs = v_2319256_25;
-Obj v_2319261_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
-R[1] = v_2319261_25;
+Obj v_nargs = v_2319377_25;
+Obj v_2319382_25 = PRIM_ADD(v_nargs, MAKE_NUMBER(1));
+R[1] = v_2319382_25;
 saveCont(co, clofun83, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj v_2319255_25= co->res;
+Obj v_2319376_25= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
 saveCont(co, clofun83, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2319255_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2319376_25);
 return;
 }
 }
@@ -5059,12 +5059,12 @@ return;
 }
 case 1:
 {
-Obj v_2319258_25= co->res;
+Obj v_2319379_25= co->res;
 Obj v_acc = R[1];
-Obj v_2319259_25 = PRIM_ADD(v_2319258_25, MAKE_NUMBER(1));
-Obj v_len = v_2319259_25;
-Obj v_2319260_25 = PRIM_GT(v_len, v_acc);
-if (True == v_2319260_25) {
+Obj v_2319380_25 = PRIM_ADD(v_2319379_25, MAKE_NUMBER(1));
+Obj v_len = v_2319380_25;
+Obj v_2319381_25 = PRIM_GT(v_len, v_acc);
+if (True == v_2319381_25) {
 coraReturn(co, v_len);
 return;
 } else {
@@ -5074,11 +5074,11 @@ return;
 }
 case 2:
 {
-Obj v_2319257_25= co->res;
+Obj v_2319378_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun82, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2319257_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_2319378_25);
 return;
 }
 }
@@ -5110,12 +5110,12 @@ return;
 }
 case 1:
 {
-Obj v_2319250_25= co->res;
+Obj v_2319371_25= co->res;
 Obj v_body1 = R[1];
-Obj v_2319251_25 = makeCons(co->gc, v_body1, v_2319250_25);
-Obj v_2319252_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319251_25);
-Obj v_2319253_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319252_25);
-coraReturn(co, v_2319253_25);
+Obj v_2319372_25 = makeCons(co->gc, v_body1, v_2319371_25);
+Obj v_2319373_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319372_25);
+Obj v_2319374_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319373_25);
+coraReturn(co, v_2319374_25);
 return;
 }
 }
@@ -5125,24 +5125,24 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318014_25 = R[1];
-Obj v_2318015_25 = R[2];
-Obj v_2318016_25 = R[3];
-Obj v_2318017_25 = R[4];
-Obj v_2319244_25 = PRIM_EQ(Nil, v_2318014_25);
-if (True == v_2319244_25) {
+Obj v_2318133_25 = R[1];
+Obj v_2318134_25 = R[2];
+Obj v_2318135_25 = R[3];
+Obj v_2318136_25 = R[4];
+Obj v_2319365_25 = PRIM_EQ(Nil, v_2318133_25);
+if (True == v_2319365_25) {
 co->ctx.sp = R;
-coraCall2(co, v_2318017_25, v_2318016_25, v_2318015_25);
+coraCall2(co, v_2318136_25, v_2318135_25, v_2318134_25);
 return;
 } else {
-Obj v_2319245_25 = PRIM_ISCONS(v_2318014_25);
-if (True == v_2319245_25) {
-Obj v_2319246_25 = PRIM_CAR(v_2318014_25);
-Obj v_f = v_2319246_25;
-Obj v_2319247_25 = PRIM_CDR(v_2318014_25);
-Obj v_args = v_2319247_25;
+Obj v_2319366_25 = PRIM_ISCONS(v_2318133_25);
+if (True == v_2319366_25) {
+Obj v_2319367_25 = PRIM_CAR(v_2318133_25);
+Obj v_f = v_2319367_25;
+Obj v_2319368_25 = PRIM_CDR(v_2318133_25);
+Obj v_args = v_2319368_25;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2318015_25, makeNative(co->gc, 3, clofun78, 2, 3, v_args, v_2318016_25, v_2318017_25));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2318134_25, makeNative(co->gc, 3, clofun78, 2, 3, v_args, v_2318135_25, v_2318136_25));
 return;
 } else {
 co->ctx.sp = R;
@@ -5173,9 +5173,9 @@ case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v_2319248_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v_2319369_25 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2319248_25, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v_2319369_25, v_conts2);
 return;
 }
 }
@@ -5185,33 +5185,33 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318008_25 = R[1];
-Obj v_2318009_25 = R[2];
-Obj v_2318010_25 = R[3];
-Obj v_2318163_25 = makeNative(co->gc, 2, clofun75, 1, 3, v_2318008_25, v_2318009_25, v_2318010_25);
-Obj v_2319241_25 = primIsSymbol(v_2318008_25);
-if (True == v_2319241_25) {
+Obj v_2318127_25 = R[1];
+Obj v_2318128_25 = R[2];
+Obj v_2318129_25 = R[3];
+Obj v_2318284_25 = makeNative(co->gc, 2, clofun75, 1, 3, v_2318127_25, v_2318128_25, v_2318129_25);
+Obj v_2319362_25 = primIsSymbol(v_2318127_25);
+if (True == v_2319362_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318163_25, True);
+coraCall1(co, v_2318284_25, True);
 return;
 } else {
-R[1] = v_2318163_25;
+R[1] = v_2318284_25;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318008_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318127_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319242_25= co->res;
-Obj v_2318163_25 = R[1];
-if (True == v_2319242_25) {
+Obj v_2319363_25= co->res;
+Obj v_2318284_25 = R[1];
+if (True == v_2319363_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318163_25, True);
+coraCall1(co, v_2318284_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318163_25, False);
+coraCall1(co, v_2318284_25, False);
 return;
 }
 }
@@ -5222,63 +5222,63 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318164_25 = R[1];
-if (True == v_2318164_25) {
+Obj v_2318285_25 = R[1];
+if (True == v_2318285_25) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2318012_25 = makeNative(co->gc, 1, clofun73, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v_2319217_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319217_25) {
-Obj v_2319218_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319219_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319218_25);
-if (True == v_2319219_25) {
-Obj v_2319220_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319221_25 = PRIM_ISCONS(v_2319220_25);
-if (True == v_2319221_25) {
-Obj v_2319222_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319223_25 = PRIM_CAR(v_2319222_25);
-Obj v_exp = v_2319223_25;
-Obj v_2319224_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319225_25 = PRIM_CDR(v_2319224_25);
-Obj v_2319226_25 = PRIM_ISCONS(v_2319225_25);
-if (True == v_2319226_25) {
-Obj v_2319227_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319228_25 = PRIM_CDR(v_2319227_25);
-Obj v_2319229_25 = PRIM_CAR(v_2319228_25);
-Obj v_cont = v_2319229_25;
-Obj v_2319230_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319231_25 = PRIM_CDR(v_2319230_25);
-Obj v_2319232_25 = PRIM_CDR(v_2319231_25);
-Obj v_2319233_25 = PRIM_EQ(Nil, v_2319232_25);
-if (True == v_2319233_25) {
+Obj v_2318131_25 = makeNative(co->gc, 1, clofun73, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v_2319338_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319338_25) {
+Obj v_2319339_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319340_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319339_25);
+if (True == v_2319340_25) {
+Obj v_2319341_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319342_25 = PRIM_ISCONS(v_2319341_25);
+if (True == v_2319342_25) {
+Obj v_2319343_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319344_25 = PRIM_CAR(v_2319343_25);
+Obj v_exp = v_2319344_25;
+Obj v_2319345_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319346_25 = PRIM_CDR(v_2319345_25);
+Obj v_2319347_25 = PRIM_ISCONS(v_2319346_25);
+if (True == v_2319347_25) {
+Obj v_2319348_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319349_25 = PRIM_CDR(v_2319348_25);
+Obj v_2319350_25 = PRIM_CAR(v_2319349_25);
+Obj v_cont = v_2319350_25;
+Obj v_2319351_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319352_25 = PRIM_CDR(v_2319351_25);
+Obj v_2319353_25 = PRIM_CDR(v_2319352_25);
+Obj v_2319354_25 = PRIM_EQ(Nil, v_2319353_25);
+if (True == v_2319354_25) {
 co->ctx.sp = R;
 coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun74, 2, 2, closureRef(R[0], 2), v_exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318012_25);
+coraCall0(co, v_2318131_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318012_25);
+coraCall0(co, v_2318131_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318012_25);
+coraCall0(co, v_2318131_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318012_25);
+coraCall0(co, v_2318131_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318012_25);
+coraCall0(co, v_2318131_25);
 return;
 }
 }
@@ -5300,25 +5300,25 @@ return;
 }
 case 1:
 {
-Obj v_2319235_25= co->res;
+Obj v_2319356_25= co->res;
 Obj v_fvs = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v_2319236_25 = PRIM_ADD(v_2319235_25, MAKE_NUMBER(1));
-Obj v_2319237_25 = makeCons(co->gc, v_2319236_25, v_fvs);
-Obj v_2319238_25 = makeCons(co->gc, closureRef(R[0], 1), v_2319237_25);
-Obj v_2319239_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319238_25);
-Obj v_2319240_25 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v_2319357_25 = PRIM_ADD(v_2319356_25, MAKE_NUMBER(1));
+Obj v_2319358_25 = makeCons(co->gc, v_2319357_25, v_fvs);
+Obj v_2319359_25 = makeCons(co->gc, closureRef(R[0], 1), v_2319358_25);
+Obj v_2319360_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319359_25);
+Obj v_2319361_25 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v_2319239_25, v_2319240_25);
+coraCall2(co, closureRef(R[0], 0), v_2319360_25, v_2319361_25);
 return;
 }
 case 2:
 {
-Obj v_2319234_25= co->res;
+Obj v_2319355_25= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v_fvs = v_2319234_25;
+Obj v_fvs = v_2319355_25;
 R[1] = v_fvs;
 R[2] = v_cont1;
 R[3] = v_conts1;
@@ -5333,15 +5333,15 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319213_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319213_25) {
-Obj v_2319214_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2319214_25;
-Obj v_2319215_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2319215_25;
-Obj v_2319216_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319334_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319334_25) {
+Obj v_2319335_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319335_25;
+Obj v_2319336_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319336_25;
+Obj v_2319337_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2319216_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2319337_25, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5356,90 +5356,90 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318000_25 = R[1];
-Obj v_2318001_25 = R[2];
-R[1] = v_2318001_25;
-R[2] = v_2318000_25;
+Obj v_2318119_25 = R[1];
+Obj v_2318120_25 = R[2];
+R[1] = v_2318120_25;
+R[2] = v_2318119_25;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318001_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318120_25);
 return;
 }
 case 1:
 {
-Obj v_2319208_25= co->res;
+Obj v_2319329_25= co->res;
 Obj v_args = R[1];
-Obj v_2319209_25 = makeCons(co->gc, v_2319208_25, Nil);
-Obj v_2319210_25 = makeCons(co->gc, v_args, v_2319209_25);
-Obj v_2319211_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319210_25);
-coraReturn(co, v_2319211_25);
+Obj v_2319330_25 = makeCons(co->gc, v_2319329_25, Nil);
+Obj v_2319331_25 = makeCons(co->gc, v_args, v_2319330_25);
+Obj v_2319332_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319331_25);
+coraReturn(co, v_2319332_25);
 return;
 }
 case 2:
 {
-Obj v_2319136_25= co->res;
-Obj v_2318001_25 = R[1];
-Obj v_2318000_25 = R[2];
-if (True == v_2319136_25) {
-coraReturn(co, v_2318001_25);
-return;
-} else {
-Obj v_2319137_25 = primIsSymbol(v_2318001_25);
-if (True == v_2319137_25) {
-coraReturn(co, v_2318001_25);
-return;
-} else {
-Obj v_2318004_25 = makeNative(co->gc, 4, clofun71, 0, 2, v_2318001_25, v_2318000_25);
-Obj v_2319191_25 = PRIM_ISCONS(v_2318001_25);
-if (True == v_2319191_25) {
-Obj v_2319192_25 = PRIM_CAR(v_2318001_25);
-Obj v_2319193_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319192_25);
-if (True == v_2319193_25) {
-Obj v_2319194_25 = PRIM_CDR(v_2318001_25);
-Obj v_2319195_25 = PRIM_ISCONS(v_2319194_25);
-if (True == v_2319195_25) {
-Obj v_2319196_25 = PRIM_CDR(v_2318001_25);
-Obj v_2319197_25 = PRIM_CAR(v_2319196_25);
-Obj v_args = v_2319197_25;
-Obj v_2319198_25 = PRIM_CDR(v_2318001_25);
-Obj v_2319199_25 = PRIM_CDR(v_2319198_25);
-Obj v_2319200_25 = PRIM_ISCONS(v_2319199_25);
-if (True == v_2319200_25) {
-Obj v_2319201_25 = PRIM_CDR(v_2318001_25);
-Obj v_2319202_25 = PRIM_CDR(v_2319201_25);
-Obj v_2319203_25 = PRIM_CAR(v_2319202_25);
-Obj v_body = v_2319203_25;
-Obj v_2319204_25 = PRIM_CDR(v_2318001_25);
-Obj v_2319205_25 = PRIM_CDR(v_2319204_25);
-Obj v_2319206_25 = PRIM_CDR(v_2319205_25);
-Obj v_2319207_25 = PRIM_EQ(Nil, v_2319206_25);
-if (True == v_2319207_25) {
+Obj v_2319257_25= co->res;
+Obj v_2318120_25 = R[1];
+Obj v_2318119_25 = R[2];
+if (True == v_2319257_25) {
+coraReturn(co, v_2318120_25);
+return;
+} else {
+Obj v_2319258_25 = primIsSymbol(v_2318120_25);
+if (True == v_2319258_25) {
+coraReturn(co, v_2318120_25);
+return;
+} else {
+Obj v_2318123_25 = makeNative(co->gc, 4, clofun71, 0, 2, v_2318120_25, v_2318119_25);
+Obj v_2319312_25 = PRIM_ISCONS(v_2318120_25);
+if (True == v_2319312_25) {
+Obj v_2319313_25 = PRIM_CAR(v_2318120_25);
+Obj v_2319314_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319313_25);
+if (True == v_2319314_25) {
+Obj v_2319315_25 = PRIM_CDR(v_2318120_25);
+Obj v_2319316_25 = PRIM_ISCONS(v_2319315_25);
+if (True == v_2319316_25) {
+Obj v_2319317_25 = PRIM_CDR(v_2318120_25);
+Obj v_2319318_25 = PRIM_CAR(v_2319317_25);
+Obj v_args = v_2319318_25;
+Obj v_2319319_25 = PRIM_CDR(v_2318120_25);
+Obj v_2319320_25 = PRIM_CDR(v_2319319_25);
+Obj v_2319321_25 = PRIM_ISCONS(v_2319320_25);
+if (True == v_2319321_25) {
+Obj v_2319322_25 = PRIM_CDR(v_2318120_25);
+Obj v_2319323_25 = PRIM_CDR(v_2319322_25);
+Obj v_2319324_25 = PRIM_CAR(v_2319323_25);
+Obj v_body = v_2319324_25;
+Obj v_2319325_25 = PRIM_CDR(v_2318120_25);
+Obj v_2319326_25 = PRIM_CDR(v_2319325_25);
+Obj v_2319327_25 = PRIM_CDR(v_2319326_25);
+Obj v_2319328_25 = PRIM_EQ(Nil, v_2319327_25);
+if (True == v_2319328_25) {
 R[1] = v_args;
 saveCont(co, clofun72, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2318000_25, v_body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), v_2318119_25, v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318004_25);
+coraCall0(co, v_2318123_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318004_25);
+coraCall0(co, v_2318123_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318004_25);
+coraCall0(co, v_2318123_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318004_25);
+coraCall0(co, v_2318123_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318004_25);
+coraCall0(co, v_2318123_25);
 return;
 }
 }
@@ -5452,31 +5452,31 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318005_25 = makeNative(co->gc, 3, clofun70, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319166_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319166_25) {
-Obj v_2319167_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319168_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319167_25);
-if (True == v_2319168_25) {
-Obj v_2319169_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319170_25 = PRIM_ISCONS(v_2319169_25);
-if (True == v_2319170_25) {
-Obj v_2319171_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319172_25 = PRIM_CAR(v_2319171_25);
-Obj v_val = v_2319172_25;
-Obj v_2319173_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319174_25 = PRIM_CDR(v_2319173_25);
-Obj v_2319175_25 = PRIM_ISCONS(v_2319174_25);
-if (True == v_2319175_25) {
-Obj v_2319176_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319177_25 = PRIM_CDR(v_2319176_25);
-Obj v_2319178_25 = PRIM_CAR(v_2319177_25);
-Obj v_body = v_2319178_25;
-Obj v_2319179_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319180_25 = PRIM_CDR(v_2319179_25);
-Obj v_2319181_25 = PRIM_CDR(v_2319180_25);
-Obj v_2319182_25 = PRIM_EQ(Nil, v_2319181_25);
-if (True == v_2319182_25) {
+Obj v_2318124_25 = makeNative(co->gc, 3, clofun70, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319287_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319287_25) {
+Obj v_2319288_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319289_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2319288_25);
+if (True == v_2319289_25) {
+Obj v_2319290_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319291_25 = PRIM_ISCONS(v_2319290_25);
+if (True == v_2319291_25) {
+Obj v_2319292_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319293_25 = PRIM_CAR(v_2319292_25);
+Obj v_val = v_2319293_25;
+Obj v_2319294_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319295_25 = PRIM_CDR(v_2319294_25);
+Obj v_2319296_25 = PRIM_ISCONS(v_2319295_25);
+if (True == v_2319296_25) {
+Obj v_2319297_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319298_25 = PRIM_CDR(v_2319297_25);
+Obj v_2319299_25 = PRIM_CAR(v_2319298_25);
+Obj v_body = v_2319299_25;
+Obj v_2319300_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319301_25 = PRIM_CDR(v_2319300_25);
+Obj v_2319302_25 = PRIM_CDR(v_2319301_25);
+Obj v_2319303_25 = PRIM_EQ(Nil, v_2319302_25);
+if (True == v_2319303_25) {
 R[1] = v_body;
 R[2] = v_val;
 saveCont(co, clofun71, 5, R);
@@ -5484,48 +5484,48 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318005_25);
+coraCall0(co, v_2318124_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318005_25);
+coraCall0(co, v_2318124_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318005_25);
+coraCall0(co, v_2318124_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318005_25);
+coraCall0(co, v_2318124_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318005_25);
+coraCall0(co, v_2318124_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319187_25= co->res;
+Obj v_2319308_25= co->res;
 Obj v_fvs2 = R[1];
 Obj v_val = R[2];
-Obj v_2319188_25 = makeCons(co->gc, v_2319187_25, v_fvs2);
-Obj v_2319189_25 = makeCons(co->gc, v_val, v_2319188_25);
-Obj v_2319190_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2319189_25);
-coraReturn(co, v_2319190_25);
+Obj v_2319309_25 = makeCons(co->gc, v_2319308_25, v_fvs2);
+Obj v_2319310_25 = makeCons(co->gc, v_val, v_2319309_25);
+Obj v_2319311_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2319310_25);
+coraReturn(co, v_2319311_25);
 return;
 }
 case 2:
 {
-Obj v_2319186_25= co->res;
+Obj v_2319307_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
-Obj v_fvs2 = v_2319186_25;
+Obj v_fvs2 = v_2319307_25;
 R[1] = v_fvs2;
 R[2] = v_val;
 saveCont(co, clofun71, 1, R);
@@ -5534,7 +5534,7 @@ return;
 }
 case 3:
 {
-Obj v_2319185_25= co->res;
+Obj v_2319306_25= co->res;
 Obj v_fvs1 = R[1];
 Obj v_body = R[2];
 Obj v_val = R[3];
@@ -5542,15 +5542,15 @@ R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319185_25, v_fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319306_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2319184_25= co->res;
+Obj v_2319305_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
-Obj v_fvs1 = v_2319184_25;
+Obj v_fvs1 = v_2319305_25;
 R[1] = v_fvs1;
 R[2] = v_body;
 R[3] = v_val;
@@ -5560,13 +5560,13 @@ return;
 }
 case 5:
 {
-Obj v_2319183_25= co->res;
+Obj v_2319304_25= co->res;
 Obj v_body = R[1];
 Obj v_val = R[2];
 R[1] = v_body;
 R[2] = v_val;
 saveCont(co, clofun71, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2319183_25, v_val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2319304_25, v_val);
 return;
 }
 }
@@ -5576,31 +5576,31 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318006_25 = makeNative(co->gc, 3, clofun69, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319143_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319143_25) {
-Obj v_2319144_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319145_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319144_25);
-if (True == v_2319145_25) {
-Obj v_2319146_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319147_25 = PRIM_ISCONS(v_2319146_25);
-if (True == v_2319147_25) {
-Obj v_2319148_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319149_25 = PRIM_CAR(v_2319148_25);
-Obj v_exp = v_2319149_25;
-Obj v_2319150_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319151_25 = PRIM_CDR(v_2319150_25);
-Obj v_2319152_25 = PRIM_ISCONS(v_2319151_25);
-if (True == v_2319152_25) {
-Obj v_2319153_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319154_25 = PRIM_CDR(v_2319153_25);
-Obj v_2319155_25 = PRIM_CAR(v_2319154_25);
-Obj v_cont = v_2319155_25;
-Obj v_2319156_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319157_25 = PRIM_CDR(v_2319156_25);
-Obj v_2319158_25 = PRIM_CDR(v_2319157_25);
-Obj v_2319159_25 = PRIM_EQ(Nil, v_2319158_25);
-if (True == v_2319159_25) {
+Obj v_2318125_25 = makeNative(co->gc, 3, clofun69, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319264_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319264_25) {
+Obj v_2319265_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319266_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2319265_25);
+if (True == v_2319266_25) {
+Obj v_2319267_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319268_25 = PRIM_ISCONS(v_2319267_25);
+if (True == v_2319268_25) {
+Obj v_2319269_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319270_25 = PRIM_CAR(v_2319269_25);
+Obj v_exp = v_2319270_25;
+Obj v_2319271_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319272_25 = PRIM_CDR(v_2319271_25);
+Obj v_2319273_25 = PRIM_ISCONS(v_2319272_25);
+if (True == v_2319273_25) {
+Obj v_2319274_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319275_25 = PRIM_CDR(v_2319274_25);
+Obj v_2319276_25 = PRIM_CAR(v_2319275_25);
+Obj v_cont = v_2319276_25;
+Obj v_2319277_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319278_25 = PRIM_CDR(v_2319277_25);
+Obj v_2319279_25 = PRIM_CDR(v_2319278_25);
+Obj v_2319280_25 = PRIM_EQ(Nil, v_2319279_25);
+if (True == v_2319280_25) {
 R[1] = v_exp;
 R[2] = v_cont;
 saveCont(co, clofun70, 3, R);
@@ -5608,57 +5608,57 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318006_25);
+coraCall0(co, v_2318125_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318006_25);
+coraCall0(co, v_2318125_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318006_25);
+coraCall0(co, v_2318125_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318006_25);
+coraCall0(co, v_2318125_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2318006_25);
+coraCall0(co, v_2318125_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319162_25= co->res;
-Obj v_2319161_25 = R[1];
-Obj v_2319163_25 = makeCons(co->gc, v_2319162_25, Nil);
-Obj v_2319164_25 = makeCons(co->gc, v_2319161_25, v_2319163_25);
-Obj v_2319165_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319164_25);
-coraReturn(co, v_2319165_25);
+Obj v_2319283_25= co->res;
+Obj v_2319282_25 = R[1];
+Obj v_2319284_25 = makeCons(co->gc, v_2319283_25, Nil);
+Obj v_2319285_25 = makeCons(co->gc, v_2319282_25, v_2319284_25);
+Obj v_2319286_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319285_25);
+coraReturn(co, v_2319286_25);
 return;
 }
 case 2:
 {
-Obj v_2319161_25= co->res;
+Obj v_2319282_25= co->res;
 Obj v_cont = R[1];
-R[1] = v_2319161_25;
+R[1] = v_2319282_25;
 saveCont(co, clofun70, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1), v_cont);
 return;
 }
 case 3:
 {
-Obj v_2319160_25= co->res;
+Obj v_2319281_25= co->res;
 Obj v_exp = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 saveCont(co, clofun70, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319160_25, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319281_25, v_exp);
 return;
 }
 }
@@ -5668,12 +5668,12 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2319138_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319138_25) {
-Obj v_2319139_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2319139_25;
-Obj v_2319140_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2319140_25;
+Obj v_2319259_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319259_25) {
+Obj v_2319260_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319260_25;
+Obj v_2319261_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319261_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun69, 1, R);
@@ -5687,12 +5687,12 @@ return;
 }
 case 1:
 {
-Obj v_2319141_25= co->res;
+Obj v_2319262_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2319142_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319263_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319141_25, v_2319142_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319262_25, v_2319263_25);
 return;
 }
 }
@@ -5702,24 +5702,24 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317995_25 = R[1];
-Obj v_2317996_25 = R[2];
-Obj v_2317997_25 = R[3];
-Obj v_2319113_25 = PRIM_EQ(Nil, v_2317995_25);
-if (True == v_2319113_25) {
-R[1] = v_2317997_25;
+Obj v_2318114_25 = R[1];
+Obj v_2318115_25 = R[2];
+Obj v_2318116_25 = R[3];
+Obj v_2319234_25 = PRIM_EQ(Nil, v_2318114_25);
+if (True == v_2319234_25) {
+R[1] = v_2318116_25;
 saveCont(co, clofun68, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2317996_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_2318115_25);
 return;
 } else {
-Obj v_2319131_25 = PRIM_ISCONS(v_2317995_25);
-if (True == v_2319131_25) {
-Obj v_2319132_25 = PRIM_CAR(v_2317995_25);
-Obj v_hd = v_2319132_25;
-Obj v_2319133_25 = PRIM_CDR(v_2317995_25);
-Obj v_tl = v_2319133_25;
+Obj v_2319252_25 = PRIM_ISCONS(v_2318114_25);
+if (True == v_2319252_25) {
+Obj v_2319253_25 = PRIM_CAR(v_2318114_25);
+Obj v_hd = v_2319253_25;
+Obj v_2319254_25 = PRIM_CDR(v_2318114_25);
+Obj v_tl = v_2319254_25;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun67, 1, 3, v_tl, v_2317996_25, v_2317997_25));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co->gc, 2, clofun67, 1, 3, v_tl, v_2318115_25, v_2318116_25));
 return;
 } else {
 co->ctx.sp = R;
@@ -5730,46 +5730,46 @@ return;
 }
 case 1:
 {
-Obj v_2319129_25= co->res;
-Obj v_2318154_25 = R[1];
-Obj v_2319130_25 = PRIM_EQ(v_2319129_25, getBinding(co, packageID, 90).name);
-if (True == v_2319130_25) {
+Obj v_2319250_25= co->res;
+Obj v_2318275_25 = R[1];
+Obj v_2319251_25 = PRIM_EQ(v_2319250_25, getBinding(co, packageID, 90).name);
+if (True == v_2319251_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318154_25, True);
+coraCall1(co, v_2318275_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318154_25, False);
+coraCall1(co, v_2318275_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2319128_25= co->res;
+Obj v_2319249_25= co->res;
 Obj v_exp = R[1];
-Obj v_2318154_25 = R[2];
-if (True == v_2319128_25) {
-R[1] = v_2318154_25;
+Obj v_2318275_25 = R[2];
+if (True == v_2319249_25) {
+R[1] = v_2318275_25;
 saveCont(co, clofun68, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318154_25, False);
+coraCall1(co, v_2318275_25, False);
 return;
 }
 }
 case 3:
 {
-Obj v_2319114_25= co->res;
-Obj v_2317997_25 = R[1];
-Obj v_exp = v_2319114_25;
-Obj v_2318154_25 = makeNative(co->gc, 2, clofun66, 1, 2, v_exp, v_2317997_25);
-Obj v_2319127_25 = PRIM_CAR(v_exp);
+Obj v_2319235_25= co->res;
+Obj v_2318116_25 = R[1];
+Obj v_exp = v_2319235_25;
+Obj v_2318275_25 = makeNative(co->gc, 2, clofun66, 1, 2, v_exp, v_2318116_25);
+Obj v_2319248_25 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v_2318154_25;
+R[2] = v_2318275_25;
 saveCont(co, clofun68, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2319127_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_2319248_25);
 return;
 }
 }
@@ -5780,9 +5780,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v_2319134_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v_2319255_25 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2319134_25, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v_2319255_25, closureRef(R[0], 2));
 return;
 }
 }
@@ -5792,23 +5792,23 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318155_25 = R[1];
-if (True == v_2318155_25) {
+Obj v_2318276_25 = R[1];
+if (True == v_2318276_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v_2319115_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
-if (True == v_2319115_25) {
-Obj v_2319116_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v_2319117_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2319116_25);
-coraReturn(co, v_2319117_25);
+Obj v_2319236_25 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
+if (True == v_2319236_25) {
+Obj v_2319237_25 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v_2319238_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2319237_25);
+coraReturn(co, v_2319238_25);
 return;
 } else {
-Obj v_2319118_25 = primGenSym(co);
-Obj v_val = v_2319118_25;
-Obj v_2319119_25 = makeCons(co->gc, v_val, Nil);
-R[1] = v_2319119_25;
+Obj v_2319239_25 = primGenSym(co);
+Obj v_val = v_2319239_25;
+Obj v_2319240_25 = makeCons(co->gc, v_val, Nil);
+R[1] = v_2319240_25;
 saveCont(co, clofun66, 1, R);
 coraCall1(co, closureRef(R[0], 1), v_val);
 return;
@@ -5817,15 +5817,15 @@ return;
 }
 case 1:
 {
-Obj v_2319120_25= co->res;
-Obj v_2319119_25 = R[1];
-Obj v_2319121_25 = makeCons(co->gc, v_2319120_25, Nil);
-Obj v_2319122_25 = makeCons(co->gc, v_2319119_25, v_2319121_25);
-Obj v_2319123_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2319122_25);
-Obj v_2319124_25 = makeCons(co->gc, v_2319123_25, Nil);
-Obj v_2319125_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319124_25);
-Obj v_2319126_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319125_25);
-coraReturn(co, v_2319126_25);
+Obj v_2319241_25= co->res;
+Obj v_2319240_25 = R[1];
+Obj v_2319242_25 = makeCons(co->gc, v_2319241_25, Nil);
+Obj v_2319243_25 = makeCons(co->gc, v_2319240_25, v_2319242_25);
+Obj v_2319244_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2319243_25);
+Obj v_2319245_25 = makeCons(co->gc, v_2319244_25, Nil);
+Obj v_2319246_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319245_25);
+Obj v_2319247_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2319246_25);
+coraReturn(co, v_2319247_25);
 return;
 }
 }
@@ -5835,32 +5835,32 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317986_25 = R[1];
-Obj v_2317987_25 = R[2];
-Obj v_2318143_25 = makeNative(co->gc, 2, clofun64, 1, 2, v_2317986_25, v_2317987_25);
-Obj v_2319110_25 = primIsSymbol(v_2317986_25);
-if (True == v_2319110_25) {
+Obj v_2318105_25 = R[1];
+Obj v_2318106_25 = R[2];
+Obj v_2318264_25 = makeNative(co->gc, 2, clofun64, 1, 2, v_2318105_25, v_2318106_25);
+Obj v_2319231_25 = primIsSymbol(v_2318105_25);
+if (True == v_2319231_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318143_25, True);
+coraCall1(co, v_2318264_25, True);
 return;
 } else {
-R[1] = v_2318143_25;
+R[1] = v_2318264_25;
 saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317986_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318105_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319111_25= co->res;
-Obj v_2318143_25 = R[1];
-if (True == v_2319111_25) {
+Obj v_2319232_25= co->res;
+Obj v_2318264_25 = R[1];
+if (True == v_2319232_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318143_25, True);
+coraCall1(co, v_2318264_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318143_25, False);
+coraCall1(co, v_2318264_25, False);
 return;
 }
 }
@@ -5871,8 +5871,8 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318144_25 = R[1];
-if (True == v_2318144_25) {
+Obj v_2318265_25 = R[1];
+if (True == v_2318265_25) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5884,78 +5884,78 @@ return;
 }
 case 1:
 {
-Obj v_2318976_25= co->res;
-if (True == v_2318976_25) {
+Obj v_2319097_25= co->res;
+if (True == v_2319097_25) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v_2317990_25 = makeNative(co->gc, 1, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319078_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319078_25) {
-Obj v_2319079_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319080_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319079_25);
-if (True == v_2319080_25) {
-Obj v_2319081_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319082_25 = PRIM_ISCONS(v_2319081_25);
-if (True == v_2319082_25) {
-Obj v_2319083_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319084_25 = PRIM_CAR(v_2319083_25);
-Obj v_a = v_2319084_25;
-Obj v_2319085_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319086_25 = PRIM_CDR(v_2319085_25);
-Obj v_2319087_25 = PRIM_ISCONS(v_2319086_25);
-if (True == v_2319087_25) {
-Obj v_2319088_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319089_25 = PRIM_CDR(v_2319088_25);
-Obj v_2319090_25 = PRIM_CAR(v_2319089_25);
-Obj v_b = v_2319090_25;
-Obj v_2319091_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319092_25 = PRIM_CDR(v_2319091_25);
-Obj v_2319093_25 = PRIM_CDR(v_2319092_25);
-Obj v_2319094_25 = PRIM_ISCONS(v_2319093_25);
-if (True == v_2319094_25) {
-Obj v_2319095_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319096_25 = PRIM_CDR(v_2319095_25);
-Obj v_2319097_25 = PRIM_CDR(v_2319096_25);
-Obj v_2319098_25 = PRIM_CAR(v_2319097_25);
-Obj v_c = v_2319098_25;
-Obj v_2319099_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319100_25 = PRIM_CDR(v_2319099_25);
-Obj v_2319101_25 = PRIM_CDR(v_2319100_25);
-Obj v_2319102_25 = PRIM_CDR(v_2319101_25);
-Obj v_2319103_25 = PRIM_EQ(Nil, v_2319102_25);
-if (True == v_2319103_25) {
+Obj v_2318109_25 = makeNative(co->gc, 1, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319199_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319199_25) {
+Obj v_2319200_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319201_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2319200_25);
+if (True == v_2319201_25) {
+Obj v_2319202_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319203_25 = PRIM_ISCONS(v_2319202_25);
+if (True == v_2319203_25) {
+Obj v_2319204_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319205_25 = PRIM_CAR(v_2319204_25);
+Obj v_a = v_2319205_25;
+Obj v_2319206_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319207_25 = PRIM_CDR(v_2319206_25);
+Obj v_2319208_25 = PRIM_ISCONS(v_2319207_25);
+if (True == v_2319208_25) {
+Obj v_2319209_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319210_25 = PRIM_CDR(v_2319209_25);
+Obj v_2319211_25 = PRIM_CAR(v_2319210_25);
+Obj v_b = v_2319211_25;
+Obj v_2319212_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319213_25 = PRIM_CDR(v_2319212_25);
+Obj v_2319214_25 = PRIM_CDR(v_2319213_25);
+Obj v_2319215_25 = PRIM_ISCONS(v_2319214_25);
+if (True == v_2319215_25) {
+Obj v_2319216_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319217_25 = PRIM_CDR(v_2319216_25);
+Obj v_2319218_25 = PRIM_CDR(v_2319217_25);
+Obj v_2319219_25 = PRIM_CAR(v_2319218_25);
+Obj v_c = v_2319219_25;
+Obj v_2319220_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319221_25 = PRIM_CDR(v_2319220_25);
+Obj v_2319222_25 = PRIM_CDR(v_2319221_25);
+Obj v_2319223_25 = PRIM_CDR(v_2319222_25);
+Obj v_2319224_25 = PRIM_EQ(Nil, v_2319223_25);
+if (True == v_2319224_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 3, clofun63, 1, 3, v_b, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317990_25);
+coraCall0(co, v_2318109_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317990_25);
+coraCall0(co, v_2318109_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317990_25);
+coraCall0(co, v_2318109_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317990_25);
+coraCall0(co, v_2318109_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317990_25);
+coraCall0(co, v_2318109_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317990_25);
+coraCall0(co, v_2318109_25);
 return;
 }
 }
@@ -5975,21 +5975,21 @@ return;
 }
 case 1:
 {
-Obj v_2319105_25= co->res;
-Obj v_2319104_25 = R[1];
+Obj v_2319226_25= co->res;
+Obj v_2319225_25 = R[1];
 Obj v_ra = R[2];
-Obj v_2319106_25 = makeCons(co->gc, v_2319105_25, Nil);
-Obj v_2319107_25 = makeCons(co->gc, v_2319104_25, v_2319106_25);
-Obj v_2319108_25 = makeCons(co->gc, v_ra, v_2319107_25);
-Obj v_2319109_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2319108_25);
-coraReturn(co, v_2319109_25);
+Obj v_2319227_25 = makeCons(co->gc, v_2319226_25, Nil);
+Obj v_2319228_25 = makeCons(co->gc, v_2319225_25, v_2319227_25);
+Obj v_2319229_25 = makeCons(co->gc, v_ra, v_2319228_25);
+Obj v_2319230_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2319229_25);
+coraReturn(co, v_2319230_25);
 return;
 }
 case 2:
 {
-Obj v_2319104_25= co->res;
+Obj v_2319225_25= co->res;
 Obj v_ra = R[1];
-R[1] = v_2319104_25;
+R[1] = v_2319225_25;
 R[2] = v_ra;
 saveCont(co, clofun63, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -6002,57 +6002,57 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317991_25 = makeNative(co->gc, 1, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319056_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319056_25) {
-Obj v_2319057_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319058_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319057_25);
-if (True == v_2319058_25) {
-Obj v_2319059_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319060_25 = PRIM_ISCONS(v_2319059_25);
-if (True == v_2319060_25) {
-Obj v_2319061_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319062_25 = PRIM_CAR(v_2319061_25);
-Obj v_a = v_2319062_25;
-Obj v_2319063_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319064_25 = PRIM_CDR(v_2319063_25);
-Obj v_2319065_25 = PRIM_ISCONS(v_2319064_25);
-if (True == v_2319065_25) {
-Obj v_2319066_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319067_25 = PRIM_CDR(v_2319066_25);
-Obj v_2319068_25 = PRIM_CAR(v_2319067_25);
-Obj v_b = v_2319068_25;
-Obj v_2319069_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319070_25 = PRIM_CDR(v_2319069_25);
-Obj v_2319071_25 = PRIM_CDR(v_2319070_25);
-Obj v_2319072_25 = PRIM_EQ(Nil, v_2319071_25);
-if (True == v_2319072_25) {
+Obj v_2318110_25 = makeNative(co->gc, 1, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319177_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319177_25) {
+Obj v_2319178_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319179_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2319178_25);
+if (True == v_2319179_25) {
+Obj v_2319180_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319181_25 = PRIM_ISCONS(v_2319180_25);
+if (True == v_2319181_25) {
+Obj v_2319182_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319183_25 = PRIM_CAR(v_2319182_25);
+Obj v_a = v_2319183_25;
+Obj v_2319184_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319185_25 = PRIM_CDR(v_2319184_25);
+Obj v_2319186_25 = PRIM_ISCONS(v_2319185_25);
+if (True == v_2319186_25) {
+Obj v_2319187_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319188_25 = PRIM_CDR(v_2319187_25);
+Obj v_2319189_25 = PRIM_CAR(v_2319188_25);
+Obj v_b = v_2319189_25;
+Obj v_2319190_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319191_25 = PRIM_CDR(v_2319190_25);
+Obj v_2319192_25 = PRIM_CDR(v_2319191_25);
+Obj v_2319193_25 = PRIM_EQ(Nil, v_2319192_25);
+if (True == v_2319193_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_a, makeNative(co->gc, 2, clofun61, 1, 2, v_b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317991_25);
+coraCall0(co, v_2318110_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317991_25);
+coraCall0(co, v_2318110_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317991_25);
+coraCall0(co, v_2318110_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317991_25);
+coraCall0(co, v_2318110_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317991_25);
+coraCall0(co, v_2318110_25);
 return;
 }
 }
@@ -6064,8 +6064,8 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v_2319073_25 = primIsSymbol(v_ra);
-if (True == v_2319073_25) {
+Obj v_2319194_25 = primIsSymbol(v_ra);
+if (True == v_2319194_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6078,12 +6078,12 @@ return;
 }
 case 1:
 {
-Obj v_2319074_25= co->res;
+Obj v_2319195_25= co->res;
 Obj v_ra = R[1];
-Obj v_2319075_25 = makeCons(co->gc, v_2319074_25, Nil);
-Obj v_2319076_25 = makeCons(co->gc, v_ra, v_2319075_25);
-Obj v_2319077_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2319076_25);
-coraReturn(co, v_2319077_25);
+Obj v_2319196_25 = makeCons(co->gc, v_2319195_25, Nil);
+Obj v_2319197_25 = makeCons(co->gc, v_ra, v_2319196_25);
+Obj v_2319198_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2319197_25);
+coraReturn(co, v_2319198_25);
 return;
 }
 }
@@ -6093,73 +6093,73 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317992_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2319025_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2319025_25) {
-Obj v_2319026_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2319027_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319026_25);
-if (True == v_2319027_25) {
-Obj v_2319028_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319029_25 = PRIM_ISCONS(v_2319028_25);
-if (True == v_2319029_25) {
-Obj v_2319030_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319031_25 = PRIM_CAR(v_2319030_25);
-Obj v_a = v_2319031_25;
-Obj v_2319032_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319033_25 = PRIM_CDR(v_2319032_25);
-Obj v_2319034_25 = PRIM_ISCONS(v_2319033_25);
-if (True == v_2319034_25) {
-Obj v_2319035_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319036_25 = PRIM_CDR(v_2319035_25);
-Obj v_2319037_25 = PRIM_CAR(v_2319036_25);
-Obj v_b = v_2319037_25;
-Obj v_2319038_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319039_25 = PRIM_CDR(v_2319038_25);
-Obj v_2319040_25 = PRIM_CDR(v_2319039_25);
-Obj v_2319041_25 = PRIM_ISCONS(v_2319040_25);
-if (True == v_2319041_25) {
-Obj v_2319042_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319043_25 = PRIM_CDR(v_2319042_25);
-Obj v_2319044_25 = PRIM_CDR(v_2319043_25);
-Obj v_2319045_25 = PRIM_CAR(v_2319044_25);
-Obj v_c = v_2319045_25;
-Obj v_2319046_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319047_25 = PRIM_CDR(v_2319046_25);
-Obj v_2319048_25 = PRIM_CDR(v_2319047_25);
-Obj v_2319049_25 = PRIM_CDR(v_2319048_25);
-Obj v_2319050_25 = PRIM_EQ(Nil, v_2319049_25);
-if (True == v_2319050_25) {
+Obj v_2318111_25 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319146_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319146_25) {
+Obj v_2319147_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319148_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319147_25);
+if (True == v_2319148_25) {
+Obj v_2319149_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319150_25 = PRIM_ISCONS(v_2319149_25);
+if (True == v_2319150_25) {
+Obj v_2319151_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319152_25 = PRIM_CAR(v_2319151_25);
+Obj v_a = v_2319152_25;
+Obj v_2319153_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319154_25 = PRIM_CDR(v_2319153_25);
+Obj v_2319155_25 = PRIM_ISCONS(v_2319154_25);
+if (True == v_2319155_25) {
+Obj v_2319156_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319157_25 = PRIM_CDR(v_2319156_25);
+Obj v_2319158_25 = PRIM_CAR(v_2319157_25);
+Obj v_b = v_2319158_25;
+Obj v_2319159_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319160_25 = PRIM_CDR(v_2319159_25);
+Obj v_2319161_25 = PRIM_CDR(v_2319160_25);
+Obj v_2319162_25 = PRIM_ISCONS(v_2319161_25);
+if (True == v_2319162_25) {
+Obj v_2319163_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319164_25 = PRIM_CDR(v_2319163_25);
+Obj v_2319165_25 = PRIM_CDR(v_2319164_25);
+Obj v_2319166_25 = PRIM_CAR(v_2319165_25);
+Obj v_c = v_2319166_25;
+Obj v_2319167_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319168_25 = PRIM_CDR(v_2319167_25);
+Obj v_2319169_25 = PRIM_CDR(v_2319168_25);
+Obj v_2319170_25 = PRIM_CDR(v_2319169_25);
+Obj v_2319171_25 = PRIM_EQ(Nil, v_2319170_25);
+if (True == v_2319171_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_b, makeNative(co->gc, 2, clofun59, 1, 3, v_a, v_c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317992_25);
+coraCall0(co, v_2318111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317992_25);
+coraCall0(co, v_2318111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317992_25);
+coraCall0(co, v_2318111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317992_25);
+coraCall0(co, v_2318111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317992_25);
+coraCall0(co, v_2318111_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317992_25);
+coraCall0(co, v_2318111_25);
 return;
 }
 }
@@ -6178,13 +6178,13 @@ return;
 }
 case 1:
 {
-Obj v_2319051_25= co->res;
+Obj v_2319172_25= co->res;
 Obj v_rb = R[1];
-Obj v_2319052_25 = makeCons(co->gc, v_2319051_25, Nil);
-Obj v_2319053_25 = makeCons(co->gc, v_rb, v_2319052_25);
-Obj v_2319054_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319053_25);
-Obj v_2319055_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319054_25);
-coraReturn(co, v_2319055_25);
+Obj v_2319173_25 = makeCons(co->gc, v_2319172_25, Nil);
+Obj v_2319174_25 = makeCons(co->gc, v_rb, v_2319173_25);
+Obj v_2319175_25 = makeCons(co->gc, closureRef(R[0], 0), v_2319174_25);
+Obj v_2319176_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319175_25);
+coraReturn(co, v_2319176_25);
 return;
 }
 }
@@ -6194,56 +6194,56 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317993_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318981_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318981_25) {
-Obj v_2318982_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318983_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318982_25);
-if (True == v_2318983_25) {
-Obj v_2318984_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318985_25 = PRIM_ISCONS(v_2318984_25);
-if (True == v_2318985_25) {
-Obj v_2318986_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318987_25 = PRIM_CAR(v_2318986_25);
-Obj v_2318988_25 = PRIM_ISCONS(v_2318987_25);
-if (True == v_2318988_25) {
-Obj v_2318989_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318990_25 = PRIM_CAR(v_2318989_25);
-Obj v_2318991_25 = PRIM_CAR(v_2318990_25);
-Obj v_2318992_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318991_25);
-if (True == v_2318992_25) {
-Obj v_2318993_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318994_25 = PRIM_CAR(v_2318993_25);
-Obj v_2318995_25 = PRIM_CDR(v_2318994_25);
-Obj v_2318996_25 = PRIM_ISCONS(v_2318995_25);
-if (True == v_2318996_25) {
-Obj v_2318997_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318998_25 = PRIM_CAR(v_2318997_25);
-Obj v_2318999_25 = PRIM_CDR(v_2318998_25);
-Obj v_2319000_25 = PRIM_CAR(v_2318999_25);
-Obj v_args = v_2319000_25;
-Obj v_2319001_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319002_25 = PRIM_CAR(v_2319001_25);
-Obj v_2319003_25 = PRIM_CDR(v_2319002_25);
-Obj v_2319004_25 = PRIM_CDR(v_2319003_25);
-Obj v_2319005_25 = PRIM_ISCONS(v_2319004_25);
-if (True == v_2319005_25) {
-Obj v_2319006_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319007_25 = PRIM_CAR(v_2319006_25);
-Obj v_2319008_25 = PRIM_CDR(v_2319007_25);
-Obj v_2319009_25 = PRIM_CDR(v_2319008_25);
-Obj v_2319010_25 = PRIM_CAR(v_2319009_25);
-Obj v_body = v_2319010_25;
-Obj v_2319011_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319012_25 = PRIM_CAR(v_2319011_25);
-Obj v_2319013_25 = PRIM_CDR(v_2319012_25);
-Obj v_2319014_25 = PRIM_CDR(v_2319013_25);
-Obj v_2319015_25 = PRIM_CDR(v_2319014_25);
-Obj v_2319016_25 = PRIM_EQ(Nil, v_2319015_25);
-if (True == v_2319016_25) {
-Obj v_2319017_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2319018_25 = PRIM_CDR(v_2319017_25);
-Obj v_frees = v_2319018_25;
+Obj v_2318112_25 = makeNative(co->gc, 1, clofun57, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319102_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319102_25) {
+Obj v_2319103_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319104_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2319103_25);
+if (True == v_2319104_25) {
+Obj v_2319105_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319106_25 = PRIM_ISCONS(v_2319105_25);
+if (True == v_2319106_25) {
+Obj v_2319107_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319108_25 = PRIM_CAR(v_2319107_25);
+Obj v_2319109_25 = PRIM_ISCONS(v_2319108_25);
+if (True == v_2319109_25) {
+Obj v_2319110_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319111_25 = PRIM_CAR(v_2319110_25);
+Obj v_2319112_25 = PRIM_CAR(v_2319111_25);
+Obj v_2319113_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319112_25);
+if (True == v_2319113_25) {
+Obj v_2319114_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319115_25 = PRIM_CAR(v_2319114_25);
+Obj v_2319116_25 = PRIM_CDR(v_2319115_25);
+Obj v_2319117_25 = PRIM_ISCONS(v_2319116_25);
+if (True == v_2319117_25) {
+Obj v_2319118_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319119_25 = PRIM_CAR(v_2319118_25);
+Obj v_2319120_25 = PRIM_CDR(v_2319119_25);
+Obj v_2319121_25 = PRIM_CAR(v_2319120_25);
+Obj v_args = v_2319121_25;
+Obj v_2319122_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319123_25 = PRIM_CAR(v_2319122_25);
+Obj v_2319124_25 = PRIM_CDR(v_2319123_25);
+Obj v_2319125_25 = PRIM_CDR(v_2319124_25);
+Obj v_2319126_25 = PRIM_ISCONS(v_2319125_25);
+if (True == v_2319126_25) {
+Obj v_2319127_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319128_25 = PRIM_CAR(v_2319127_25);
+Obj v_2319129_25 = PRIM_CDR(v_2319128_25);
+Obj v_2319130_25 = PRIM_CDR(v_2319129_25);
+Obj v_2319131_25 = PRIM_CAR(v_2319130_25);
+Obj v_body = v_2319131_25;
+Obj v_2319132_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319133_25 = PRIM_CAR(v_2319132_25);
+Obj v_2319134_25 = PRIM_CDR(v_2319133_25);
+Obj v_2319135_25 = PRIM_CDR(v_2319134_25);
+Obj v_2319136_25 = PRIM_CDR(v_2319135_25);
+Obj v_2319137_25 = PRIM_EQ(Nil, v_2319136_25);
+if (True == v_2319137_25) {
+Obj v_2319138_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319139_25 = PRIM_CDR(v_2319138_25);
+Obj v_frees = v_2319139_25;
 R[1] = v_args;
 R[2] = v_frees;
 saveCont(co, clofun58, 1, R);
@@ -6251,57 +6251,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_body, globalRef(co
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317993_25);
+coraCall0(co, v_2318112_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2319019_25= co->res;
+Obj v_2319140_25= co->res;
 Obj v_args = R[1];
 Obj v_frees = R[2];
-Obj v_2319020_25 = makeCons(co->gc, v_2319019_25, Nil);
-Obj v_2319021_25 = makeCons(co->gc, v_args, v_2319020_25);
-Obj v_2319022_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319021_25);
-Obj v_2319023_25 = makeCons(co->gc, v_2319022_25, v_frees);
-Obj v_2319024_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319023_25);
+Obj v_2319141_25 = makeCons(co->gc, v_2319140_25, Nil);
+Obj v_2319142_25 = makeCons(co->gc, v_args, v_2319141_25);
+Obj v_2319143_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319142_25);
+Obj v_2319144_25 = makeCons(co->gc, v_2319143_25, v_frees);
+Obj v_2319145_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319144_25);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v_2319024_25);
+coraCall1(co, closureRef(R[0], 1), v_2319145_25);
 return;
 }
 }
@@ -6311,15 +6311,15 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318977_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318977_25) {
-Obj v_2318978_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318978_25;
-Obj v_2318979_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318979_25;
-Obj v_2318980_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319098_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319098_25) {
+Obj v_2319099_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319099_25;
+Obj v_2319100_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319100_25;
+Obj v_2319101_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2318980_25, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2319101_25, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6335,9 +6335,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318973_25 = makeCons(co->gc, v_x, Nil);
-Obj v_2318974_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318973_25);
-coraReturn(co, v_2318974_25);
+Obj v_2319094_25 = makeCons(co->gc, v_x, Nil);
+Obj v_2319095_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2319094_25);
+coraReturn(co, v_2319095_25);
 return;
 }
 }
@@ -6347,73 +6347,73 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317979_25 = R[1];
-Obj v_2317980_25 = R[2];
-R[1] = v_2317980_25;
-R[2] = v_2317979_25;
+Obj v_2318098_25 = R[1];
+Obj v_2318099_25 = R[2];
+R[1] = v_2318099_25;
+R[2] = v_2318098_25;
 saveCont(co, clofun55, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317980_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318099_25);
 return;
 }
 case 1:
 {
-Obj v_2318902_25= co->res;
-Obj v_2317980_25 = R[1];
-Obj v_pos = v_2318902_25;
-Obj v_2318903_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
-if (True == v_2318903_25) {
-coraReturn(co, v_2317980_25);
+Obj v_2319023_25= co->res;
+Obj v_2318099_25 = R[1];
+Obj v_pos = v_2319023_25;
+Obj v_2319024_25 = PRIM_EQ(MAKE_NUMBER(-1), v_pos);
+if (True == v_2319024_25) {
+coraReturn(co, v_2318099_25);
 return;
 } else {
-Obj v_2318904_25 = makeCons(co->gc, v_pos, Nil);
-Obj v_2318905_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318904_25);
-coraReturn(co, v_2318905_25);
+Obj v_2319025_25 = makeCons(co->gc, v_pos, Nil);
+Obj v_2319026_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2319025_25);
+coraReturn(co, v_2319026_25);
 return;
 }
 }
 case 2:
 {
-Obj v_2318969_25= co->res;
-Obj v_2318967_25 = R[1];
-Obj v_2318970_25 = makeCons(co->gc, v_2318967_25, v_2318969_25);
-Obj v_2318971_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318970_25);
-coraReturn(co, v_2318971_25);
+Obj v_2319090_25= co->res;
+Obj v_2319088_25 = R[1];
+Obj v_2319091_25 = makeCons(co->gc, v_2319088_25, v_2319090_25);
+Obj v_2319092_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2319091_25);
+coraReturn(co, v_2319092_25);
 return;
 }
 case 3:
 {
-Obj v_2318968_25= co->res;
+Obj v_2319089_25= co->res;
 Obj v_fvs1 = R[1];
-Obj v_2318967_25 = R[2];
-R[1] = v_2318967_25;
+Obj v_2319088_25 = R[2];
+R[1] = v_2319088_25;
 saveCont(co, clofun55, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318968_25, v_fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319089_25, v_fvs1);
 return;
 }
 case 4:
 {
-Obj v_2318964_25= co->res;
+Obj v_2319085_25= co->res;
 Obj v_args = R[1];
-Obj v_2317979_25 = R[2];
+Obj v_2318098_25 = R[2];
 Obj v_fvs1 = R[3];
-Obj v_2318965_25 = makeCons(co->gc, v_2318964_25, Nil);
-Obj v_2318966_25 = makeCons(co->gc, v_args, v_2318965_25);
-Obj v_2318967_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318966_25);
+Obj v_2319086_25 = makeCons(co->gc, v_2319085_25, Nil);
+Obj v_2319087_25 = makeCons(co->gc, v_args, v_2319086_25);
+Obj v_2319088_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319087_25);
 R[1] = v_fvs1;
-R[2] = v_2318967_25;
+R[2] = v_2319088_25;
 saveCont(co, clofun55, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2317979_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v_2318098_25);
 return;
 }
 case 5:
 {
-Obj v_2318963_25= co->res;
+Obj v_2319084_25= co->res;
 Obj v_body = R[1];
 Obj v_args = R[2];
-Obj v_2317979_25 = R[3];
-Obj v_fvs1 = v_2318963_25;
+Obj v_2318098_25 = R[3];
+Obj v_fvs1 = v_2319084_25;
 R[1] = v_args;
-R[2] = v_2317979_25;
+R[2] = v_2318098_25;
 R[3] = v_fvs1;
 saveCont(co, clofun55, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_fvs1, v_body);
@@ -6421,77 +6421,77 @@ return;
 }
 case 6:
 {
-Obj v_2318900_25= co->res;
-Obj v_2317980_25 = R[1];
-Obj v_2317979_25 = R[2];
-if (True == v_2318900_25) {
-coraReturn(co, v_2317980_25);
+Obj v_2319021_25= co->res;
+Obj v_2318099_25 = R[1];
+Obj v_2318098_25 = R[2];
+if (True == v_2319021_25) {
+coraReturn(co, v_2318099_25);
 return;
 } else {
-Obj v_2318901_25 = primIsSymbol(v_2317980_25);
-if (True == v_2318901_25) {
-R[1] = v_2317980_25;
+Obj v_2319022_25 = primIsSymbol(v_2318099_25);
+if (True == v_2319022_25) {
+R[1] = v_2318099_25;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2317980_25, v_2317979_25);
-return;
-} else {
-Obj v_2317983_25 = makeNative(co->gc, 3, clofun54, 0, 2, v_2317980_25, v_2317979_25);
-Obj v_2318943_25 = PRIM_ISCONS(v_2317980_25);
-if (True == v_2318943_25) {
-Obj v_2318944_25 = PRIM_CAR(v_2317980_25);
-Obj v_2318945_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318944_25);
-if (True == v_2318945_25) {
-Obj v_2318946_25 = PRIM_CDR(v_2317980_25);
-Obj v_2318947_25 = PRIM_ISCONS(v_2318946_25);
-if (True == v_2318947_25) {
-Obj v_2318948_25 = PRIM_CDR(v_2317980_25);
-Obj v_2318949_25 = PRIM_CAR(v_2318948_25);
-Obj v_args = v_2318949_25;
-Obj v_2318950_25 = PRIM_CDR(v_2317980_25);
-Obj v_2318951_25 = PRIM_CDR(v_2318950_25);
-Obj v_2318952_25 = PRIM_ISCONS(v_2318951_25);
-if (True == v_2318952_25) {
-Obj v_2318953_25 = PRIM_CDR(v_2317980_25);
-Obj v_2318954_25 = PRIM_CDR(v_2318953_25);
-Obj v_2318955_25 = PRIM_CAR(v_2318954_25);
-Obj v_body = v_2318955_25;
-Obj v_2318956_25 = PRIM_CDR(v_2317980_25);
-Obj v_2318957_25 = PRIM_CDR(v_2318956_25);
-Obj v_2318958_25 = PRIM_CDR(v_2318957_25);
-Obj v_2318959_25 = PRIM_EQ(Nil, v_2318958_25);
-if (True == v_2318959_25) {
-Obj v_2318960_25 = makeCons(co->gc, v_body, Nil);
-Obj v_2318961_25 = makeCons(co->gc, v_args, v_2318960_25);
-Obj v_2318962_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318961_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2318099_25, v_2318098_25);
+return;
+} else {
+Obj v_2318102_25 = makeNative(co->gc, 3, clofun54, 0, 2, v_2318099_25, v_2318098_25);
+Obj v_2319064_25 = PRIM_ISCONS(v_2318099_25);
+if (True == v_2319064_25) {
+Obj v_2319065_25 = PRIM_CAR(v_2318099_25);
+Obj v_2319066_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319065_25);
+if (True == v_2319066_25) {
+Obj v_2319067_25 = PRIM_CDR(v_2318099_25);
+Obj v_2319068_25 = PRIM_ISCONS(v_2319067_25);
+if (True == v_2319068_25) {
+Obj v_2319069_25 = PRIM_CDR(v_2318099_25);
+Obj v_2319070_25 = PRIM_CAR(v_2319069_25);
+Obj v_args = v_2319070_25;
+Obj v_2319071_25 = PRIM_CDR(v_2318099_25);
+Obj v_2319072_25 = PRIM_CDR(v_2319071_25);
+Obj v_2319073_25 = PRIM_ISCONS(v_2319072_25);
+if (True == v_2319073_25) {
+Obj v_2319074_25 = PRIM_CDR(v_2318099_25);
+Obj v_2319075_25 = PRIM_CDR(v_2319074_25);
+Obj v_2319076_25 = PRIM_CAR(v_2319075_25);
+Obj v_body = v_2319076_25;
+Obj v_2319077_25 = PRIM_CDR(v_2318099_25);
+Obj v_2319078_25 = PRIM_CDR(v_2319077_25);
+Obj v_2319079_25 = PRIM_CDR(v_2319078_25);
+Obj v_2319080_25 = PRIM_EQ(Nil, v_2319079_25);
+if (True == v_2319080_25) {
+Obj v_2319081_25 = makeCons(co->gc, v_body, Nil);
+Obj v_2319082_25 = makeCons(co->gc, v_args, v_2319081_25);
+Obj v_2319083_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2319082_25);
 R[1] = v_body;
 R[2] = v_args;
-R[3] = v_2317979_25;
+R[3] = v_2318098_25;
 saveCont(co, clofun55, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318962_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2319083_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317983_25);
+coraCall0(co, v_2318102_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317983_25);
+coraCall0(co, v_2318102_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317983_25);
+coraCall0(co, v_2318102_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317983_25);
+coraCall0(co, v_2318102_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317983_25);
+coraCall0(co, v_2318102_25);
 return;
 }
 }
@@ -6504,42 +6504,42 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317984_25 = makeNative(co->gc, 3, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v_2318911_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318911_25) {
-Obj v_2318912_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318913_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318912_25);
-if (True == v_2318913_25) {
-Obj v_2318914_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318915_25 = PRIM_ISCONS(v_2318914_25);
-if (True == v_2318915_25) {
-Obj v_2318916_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318917_25 = PRIM_CAR(v_2318916_25);
-Obj v_a = v_2318917_25;
-Obj v_2318918_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318919_25 = PRIM_CDR(v_2318918_25);
-Obj v_2318920_25 = PRIM_ISCONS(v_2318919_25);
-if (True == v_2318920_25) {
-Obj v_2318921_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318922_25 = PRIM_CDR(v_2318921_25);
-Obj v_2318923_25 = PRIM_CAR(v_2318922_25);
-Obj v_b = v_2318923_25;
-Obj v_2318924_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318925_25 = PRIM_CDR(v_2318924_25);
-Obj v_2318926_25 = PRIM_CDR(v_2318925_25);
-Obj v_2318927_25 = PRIM_ISCONS(v_2318926_25);
-if (True == v_2318927_25) {
-Obj v_2318928_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318929_25 = PRIM_CDR(v_2318928_25);
-Obj v_2318930_25 = PRIM_CDR(v_2318929_25);
-Obj v_2318931_25 = PRIM_CAR(v_2318930_25);
-Obj v_c = v_2318931_25;
-Obj v_2318932_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318933_25 = PRIM_CDR(v_2318932_25);
-Obj v_2318934_25 = PRIM_CDR(v_2318933_25);
-Obj v_2318935_25 = PRIM_CDR(v_2318934_25);
-Obj v_2318936_25 = PRIM_EQ(Nil, v_2318935_25);
-if (True == v_2318936_25) {
+Obj v_2318103_25 = makeNative(co->gc, 3, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v_2319032_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319032_25) {
+Obj v_2319033_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2319034_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2319033_25);
+if (True == v_2319034_25) {
+Obj v_2319035_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319036_25 = PRIM_ISCONS(v_2319035_25);
+if (True == v_2319036_25) {
+Obj v_2319037_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319038_25 = PRIM_CAR(v_2319037_25);
+Obj v_a = v_2319038_25;
+Obj v_2319039_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319040_25 = PRIM_CDR(v_2319039_25);
+Obj v_2319041_25 = PRIM_ISCONS(v_2319040_25);
+if (True == v_2319041_25) {
+Obj v_2319042_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319043_25 = PRIM_CDR(v_2319042_25);
+Obj v_2319044_25 = PRIM_CAR(v_2319043_25);
+Obj v_b = v_2319044_25;
+Obj v_2319045_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319046_25 = PRIM_CDR(v_2319045_25);
+Obj v_2319047_25 = PRIM_CDR(v_2319046_25);
+Obj v_2319048_25 = PRIM_ISCONS(v_2319047_25);
+if (True == v_2319048_25) {
+Obj v_2319049_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319050_25 = PRIM_CDR(v_2319049_25);
+Obj v_2319051_25 = PRIM_CDR(v_2319050_25);
+Obj v_2319052_25 = PRIM_CAR(v_2319051_25);
+Obj v_c = v_2319052_25;
+Obj v_2319053_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2319054_25 = PRIM_CDR(v_2319053_25);
+Obj v_2319055_25 = PRIM_CDR(v_2319054_25);
+Obj v_2319056_25 = PRIM_CDR(v_2319055_25);
+Obj v_2319057_25 = PRIM_EQ(Nil, v_2319056_25);
+if (True == v_2319057_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun54, 2, R);
@@ -6547,53 +6547,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317984_25);
+coraCall0(co, v_2318103_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317984_25);
+coraCall0(co, v_2318103_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317984_25);
+coraCall0(co, v_2318103_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317984_25);
+coraCall0(co, v_2318103_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317984_25);
+coraCall0(co, v_2318103_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317984_25);
+coraCall0(co, v_2318103_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318938_25= co->res;
-Obj v_2318937_25 = R[1];
+Obj v_2319059_25= co->res;
+Obj v_2319058_25 = R[1];
 Obj v_a = R[2];
-Obj v_2318939_25 = makeCons(co->gc, v_2318938_25, Nil);
-Obj v_2318940_25 = makeCons(co->gc, v_2318937_25, v_2318939_25);
-Obj v_2318941_25 = makeCons(co->gc, v_a, v_2318940_25);
-Obj v_2318942_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318941_25);
-coraReturn(co, v_2318942_25);
+Obj v_2319060_25 = makeCons(co->gc, v_2319059_25, Nil);
+Obj v_2319061_25 = makeCons(co->gc, v_2319058_25, v_2319060_25);
+Obj v_2319062_25 = makeCons(co->gc, v_a, v_2319061_25);
+Obj v_2319063_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2319062_25);
+coraReturn(co, v_2319063_25);
 return;
 }
 case 2:
 {
-Obj v_2318937_25= co->res;
+Obj v_2319058_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
-R[1] = v_2318937_25;
+R[1] = v_2319058_25;
 R[2] = v_a;
 saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v_c);
@@ -6606,12 +6606,12 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318906_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318906_25) {
-Obj v_2318907_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318907_25;
-Obj v_2318908_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318908_25;
+Obj v_2319027_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2319027_25) {
+Obj v_2319028_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2319028_25;
+Obj v_2319029_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2319029_25;
 R[1] = v_f;
 R[2] = v_args;
 saveCont(co, clofun53, 1, R);
@@ -6625,12 +6625,12 @@ return;
 }
 case 1:
 {
-Obj v_2318909_25= co->res;
+Obj v_2319030_25= co->res;
 Obj v_f = R[1];
 Obj v_args = R[2];
-Obj v_2318910_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2319031_25 = makeCons(co->gc, v_f, v_args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318909_25, v_2318910_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2319030_25, v_2319031_25);
 return;
 }
 }
@@ -6640,86 +6640,86 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317966_25 = R[1];
-R[1] = v_2317966_25;
+Obj v_2318085_25 = R[1];
+R[1] = v_2318085_25;
 saveCont(co, clofun52, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2317966_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_2318085_25);
 return;
 }
 case 1:
 {
-Obj v_2318898_25= co->res;
+Obj v_2319019_25= co->res;
 Obj v_args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318898_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2319019_25, v_args);
 return;
 }
 case 2:
 {
-Obj v_2318725_25= co->res;
-Obj v_2317966_25 = R[1];
-if (True == v_2318725_25) {
+Obj v_2318846_25= co->res;
+Obj v_2318085_25 = R[1];
+if (True == v_2318846_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2318726_25 = primIsSymbol(v_2317966_25);
-if (True == v_2318726_25) {
-Obj v_2318727_25 = makeCons(co->gc, v_2317966_25, Nil);
-coraReturn(co, v_2318727_25);
-return;
-} else {
-Obj v_2317969_25 = makeNative(co->gc, 1, clofun51, 0, 1, v_2317966_25);
-Obj v_2318881_25 = PRIM_ISCONS(v_2317966_25);
-if (True == v_2318881_25) {
-Obj v_2318882_25 = PRIM_CAR(v_2317966_25);
-Obj v_2318883_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318882_25);
-if (True == v_2318883_25) {
-Obj v_2318884_25 = PRIM_CDR(v_2317966_25);
-Obj v_2318885_25 = PRIM_ISCONS(v_2318884_25);
-if (True == v_2318885_25) {
-Obj v_2318886_25 = PRIM_CDR(v_2317966_25);
-Obj v_2318887_25 = PRIM_CAR(v_2318886_25);
-Obj v_args = v_2318887_25;
-Obj v_2318888_25 = PRIM_CDR(v_2317966_25);
-Obj v_2318889_25 = PRIM_CDR(v_2318888_25);
-Obj v_2318890_25 = PRIM_ISCONS(v_2318889_25);
-if (True == v_2318890_25) {
-Obj v_2318891_25 = PRIM_CDR(v_2317966_25);
-Obj v_2318892_25 = PRIM_CDR(v_2318891_25);
-Obj v_2318893_25 = PRIM_CAR(v_2318892_25);
-Obj v_body = v_2318893_25;
-Obj v_2318894_25 = PRIM_CDR(v_2317966_25);
-Obj v_2318895_25 = PRIM_CDR(v_2318894_25);
-Obj v_2318896_25 = PRIM_CDR(v_2318895_25);
-Obj v_2318897_25 = PRIM_EQ(Nil, v_2318896_25);
-if (True == v_2318897_25) {
+Obj v_2318847_25 = primIsSymbol(v_2318085_25);
+if (True == v_2318847_25) {
+Obj v_2318848_25 = makeCons(co->gc, v_2318085_25, Nil);
+coraReturn(co, v_2318848_25);
+return;
+} else {
+Obj v_2318088_25 = makeNative(co->gc, 1, clofun51, 0, 1, v_2318085_25);
+Obj v_2319002_25 = PRIM_ISCONS(v_2318085_25);
+if (True == v_2319002_25) {
+Obj v_2319003_25 = PRIM_CAR(v_2318085_25);
+Obj v_2319004_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2319003_25);
+if (True == v_2319004_25) {
+Obj v_2319005_25 = PRIM_CDR(v_2318085_25);
+Obj v_2319006_25 = PRIM_ISCONS(v_2319005_25);
+if (True == v_2319006_25) {
+Obj v_2319007_25 = PRIM_CDR(v_2318085_25);
+Obj v_2319008_25 = PRIM_CAR(v_2319007_25);
+Obj v_args = v_2319008_25;
+Obj v_2319009_25 = PRIM_CDR(v_2318085_25);
+Obj v_2319010_25 = PRIM_CDR(v_2319009_25);
+Obj v_2319011_25 = PRIM_ISCONS(v_2319010_25);
+if (True == v_2319011_25) {
+Obj v_2319012_25 = PRIM_CDR(v_2318085_25);
+Obj v_2319013_25 = PRIM_CDR(v_2319012_25);
+Obj v_2319014_25 = PRIM_CAR(v_2319013_25);
+Obj v_body = v_2319014_25;
+Obj v_2319015_25 = PRIM_CDR(v_2318085_25);
+Obj v_2319016_25 = PRIM_CDR(v_2319015_25);
+Obj v_2319017_25 = PRIM_CDR(v_2319016_25);
+Obj v_2319018_25 = PRIM_EQ(Nil, v_2319017_25);
+if (True == v_2319018_25) {
 R[1] = v_args;
 saveCont(co, clofun52, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317969_25);
+coraCall0(co, v_2318088_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317969_25);
+coraCall0(co, v_2318088_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317969_25);
+coraCall0(co, v_2318088_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317969_25);
+coraCall0(co, v_2318088_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317969_25);
+coraCall0(co, v_2318088_25);
 return;
 }
 }
@@ -6732,84 +6732,84 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317970_25 = makeNative(co->gc, 1, clofun50, 0, 1, closureRef(R[0], 0));
-Obj v_2318851_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318851_25) {
-Obj v_2318852_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318853_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318852_25);
-if (True == v_2318853_25) {
-Obj v_2318854_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318855_25 = PRIM_ISCONS(v_2318854_25);
-if (True == v_2318855_25) {
-Obj v_2318856_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318857_25 = PRIM_CAR(v_2318856_25);
-Obj v_x = v_2318857_25;
-Obj v_2318858_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318859_25 = PRIM_CDR(v_2318858_25);
-Obj v_2318860_25 = PRIM_ISCONS(v_2318859_25);
-if (True == v_2318860_25) {
-Obj v_2318861_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318862_25 = PRIM_CDR(v_2318861_25);
-Obj v_2318863_25 = PRIM_CAR(v_2318862_25);
-Obj v_y = v_2318863_25;
-Obj v_2318864_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318865_25 = PRIM_CDR(v_2318864_25);
-Obj v_2318866_25 = PRIM_CDR(v_2318865_25);
-Obj v_2318867_25 = PRIM_ISCONS(v_2318866_25);
-if (True == v_2318867_25) {
-Obj v_2318868_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318869_25 = PRIM_CDR(v_2318868_25);
-Obj v_2318870_25 = PRIM_CDR(v_2318869_25);
-Obj v_2318871_25 = PRIM_CAR(v_2318870_25);
-Obj v_z = v_2318871_25;
-Obj v_2318872_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318873_25 = PRIM_CDR(v_2318872_25);
-Obj v_2318874_25 = PRIM_CDR(v_2318873_25);
-Obj v_2318875_25 = PRIM_CDR(v_2318874_25);
-Obj v_2318876_25 = PRIM_EQ(Nil, v_2318875_25);
-if (True == v_2318876_25) {
-Obj v_2318877_25 = makeCons(co->gc, v_z, Nil);
-Obj v_2318878_25 = makeCons(co->gc, v_y, v_2318877_25);
-Obj v_2318879_25 = makeCons(co->gc, v_x, v_2318878_25);
+Obj v_2318089_25 = makeNative(co->gc, 1, clofun50, 0, 1, closureRef(R[0], 0));
+Obj v_2318972_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318972_25) {
+Obj v_2318973_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318974_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318973_25);
+if (True == v_2318974_25) {
+Obj v_2318975_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318976_25 = PRIM_ISCONS(v_2318975_25);
+if (True == v_2318976_25) {
+Obj v_2318977_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318978_25 = PRIM_CAR(v_2318977_25);
+Obj v_x = v_2318978_25;
+Obj v_2318979_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318980_25 = PRIM_CDR(v_2318979_25);
+Obj v_2318981_25 = PRIM_ISCONS(v_2318980_25);
+if (True == v_2318981_25) {
+Obj v_2318982_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318983_25 = PRIM_CDR(v_2318982_25);
+Obj v_2318984_25 = PRIM_CAR(v_2318983_25);
+Obj v_y = v_2318984_25;
+Obj v_2318985_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318986_25 = PRIM_CDR(v_2318985_25);
+Obj v_2318987_25 = PRIM_CDR(v_2318986_25);
+Obj v_2318988_25 = PRIM_ISCONS(v_2318987_25);
+if (True == v_2318988_25) {
+Obj v_2318989_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318990_25 = PRIM_CDR(v_2318989_25);
+Obj v_2318991_25 = PRIM_CDR(v_2318990_25);
+Obj v_2318992_25 = PRIM_CAR(v_2318991_25);
+Obj v_z = v_2318992_25;
+Obj v_2318993_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318994_25 = PRIM_CDR(v_2318993_25);
+Obj v_2318995_25 = PRIM_CDR(v_2318994_25);
+Obj v_2318996_25 = PRIM_CDR(v_2318995_25);
+Obj v_2318997_25 = PRIM_EQ(Nil, v_2318996_25);
+if (True == v_2318997_25) {
+Obj v_2318998_25 = makeCons(co->gc, v_z, Nil);
+Obj v_2318999_25 = makeCons(co->gc, v_y, v_2318998_25);
+Obj v_2319000_25 = makeCons(co->gc, v_x, v_2318999_25);
 saveCont(co, clofun51, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318879_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2319000_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317970_25);
+coraCall0(co, v_2318089_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317970_25);
+coraCall0(co, v_2318089_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317970_25);
+coraCall0(co, v_2318089_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317970_25);
+coraCall0(co, v_2318089_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317970_25);
+coraCall0(co, v_2318089_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317970_25);
+coraCall0(co, v_2318089_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318880_25= co->res;
+Obj v_2319001_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318880_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2319001_25);
 return;
 }
 }
@@ -6819,67 +6819,67 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317971_25 = makeNative(co->gc, 3, clofun49, 0, 1, closureRef(R[0], 0));
-Obj v_2318831_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318831_25) {
-Obj v_2318832_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318833_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318832_25);
-if (True == v_2318833_25) {
-Obj v_2318834_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318835_25 = PRIM_ISCONS(v_2318834_25);
-if (True == v_2318835_25) {
-Obj v_2318836_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318837_25 = PRIM_CAR(v_2318836_25);
-Obj v_x = v_2318837_25;
-Obj v_2318838_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318839_25 = PRIM_CDR(v_2318838_25);
-Obj v_2318840_25 = PRIM_ISCONS(v_2318839_25);
-if (True == v_2318840_25) {
-Obj v_2318841_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318842_25 = PRIM_CDR(v_2318841_25);
-Obj v_2318843_25 = PRIM_CAR(v_2318842_25);
-Obj v_y = v_2318843_25;
-Obj v_2318844_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318845_25 = PRIM_CDR(v_2318844_25);
-Obj v_2318846_25 = PRIM_CDR(v_2318845_25);
-Obj v_2318847_25 = PRIM_EQ(Nil, v_2318846_25);
-if (True == v_2318847_25) {
-Obj v_2318848_25 = makeCons(co->gc, v_y, Nil);
-Obj v_2318849_25 = makeCons(co->gc, v_x, v_2318848_25);
+Obj v_2318090_25 = makeNative(co->gc, 3, clofun49, 0, 1, closureRef(R[0], 0));
+Obj v_2318952_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318952_25) {
+Obj v_2318953_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318954_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318953_25);
+if (True == v_2318954_25) {
+Obj v_2318955_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318956_25 = PRIM_ISCONS(v_2318955_25);
+if (True == v_2318956_25) {
+Obj v_2318957_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318958_25 = PRIM_CAR(v_2318957_25);
+Obj v_x = v_2318958_25;
+Obj v_2318959_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318960_25 = PRIM_CDR(v_2318959_25);
+Obj v_2318961_25 = PRIM_ISCONS(v_2318960_25);
+if (True == v_2318961_25) {
+Obj v_2318962_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318963_25 = PRIM_CDR(v_2318962_25);
+Obj v_2318964_25 = PRIM_CAR(v_2318963_25);
+Obj v_y = v_2318964_25;
+Obj v_2318965_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318966_25 = PRIM_CDR(v_2318965_25);
+Obj v_2318967_25 = PRIM_CDR(v_2318966_25);
+Obj v_2318968_25 = PRIM_EQ(Nil, v_2318967_25);
+if (True == v_2318968_25) {
+Obj v_2318969_25 = makeCons(co->gc, v_y, Nil);
+Obj v_2318970_25 = makeCons(co->gc, v_x, v_2318969_25);
 saveCont(co, clofun50, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318849_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318970_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318090_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318090_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318090_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318090_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317971_25);
+coraCall0(co, v_2318090_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318850_25= co->res;
+Obj v_2318971_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318850_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318971_25);
 return;
 }
 }
@@ -6889,42 +6889,42 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317972_25 = makeNative(co->gc, 1, clofun48, 0, 1, closureRef(R[0], 0));
-Obj v_2318801_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318801_25) {
-Obj v_2318802_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318803_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318802_25);
-if (True == v_2318803_25) {
-Obj v_2318804_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318805_25 = PRIM_ISCONS(v_2318804_25);
-if (True == v_2318805_25) {
-Obj v_2318806_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318807_25 = PRIM_CAR(v_2318806_25);
-Obj v_a = v_2318807_25;
-Obj v_2318808_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318809_25 = PRIM_CDR(v_2318808_25);
-Obj v_2318810_25 = PRIM_ISCONS(v_2318809_25);
-if (True == v_2318810_25) {
-Obj v_2318811_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318812_25 = PRIM_CDR(v_2318811_25);
-Obj v_2318813_25 = PRIM_CAR(v_2318812_25);
-Obj v_b = v_2318813_25;
-Obj v_2318814_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318815_25 = PRIM_CDR(v_2318814_25);
-Obj v_2318816_25 = PRIM_CDR(v_2318815_25);
-Obj v_2318817_25 = PRIM_ISCONS(v_2318816_25);
-if (True == v_2318817_25) {
-Obj v_2318818_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318819_25 = PRIM_CDR(v_2318818_25);
-Obj v_2318820_25 = PRIM_CDR(v_2318819_25);
-Obj v_2318821_25 = PRIM_CAR(v_2318820_25);
-Obj v_c = v_2318821_25;
-Obj v_2318822_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318823_25 = PRIM_CDR(v_2318822_25);
-Obj v_2318824_25 = PRIM_CDR(v_2318823_25);
-Obj v_2318825_25 = PRIM_CDR(v_2318824_25);
-Obj v_2318826_25 = PRIM_EQ(Nil, v_2318825_25);
-if (True == v_2318826_25) {
+Obj v_2318091_25 = makeNative(co->gc, 1, clofun48, 0, 1, closureRef(R[0], 0));
+Obj v_2318922_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318922_25) {
+Obj v_2318923_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318924_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318923_25);
+if (True == v_2318924_25) {
+Obj v_2318925_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318926_25 = PRIM_ISCONS(v_2318925_25);
+if (True == v_2318926_25) {
+Obj v_2318927_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318928_25 = PRIM_CAR(v_2318927_25);
+Obj v_a = v_2318928_25;
+Obj v_2318929_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318930_25 = PRIM_CDR(v_2318929_25);
+Obj v_2318931_25 = PRIM_ISCONS(v_2318930_25);
+if (True == v_2318931_25) {
+Obj v_2318932_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318933_25 = PRIM_CDR(v_2318932_25);
+Obj v_2318934_25 = PRIM_CAR(v_2318933_25);
+Obj v_b = v_2318934_25;
+Obj v_2318935_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318936_25 = PRIM_CDR(v_2318935_25);
+Obj v_2318937_25 = PRIM_CDR(v_2318936_25);
+Obj v_2318938_25 = PRIM_ISCONS(v_2318937_25);
+if (True == v_2318938_25) {
+Obj v_2318939_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318940_25 = PRIM_CDR(v_2318939_25);
+Obj v_2318941_25 = PRIM_CDR(v_2318940_25);
+Obj v_2318942_25 = PRIM_CAR(v_2318941_25);
+Obj v_c = v_2318942_25;
+Obj v_2318943_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318944_25 = PRIM_CDR(v_2318943_25);
+Obj v_2318945_25 = PRIM_CDR(v_2318944_25);
+Obj v_2318946_25 = PRIM_CDR(v_2318945_25);
+Obj v_2318947_25 = PRIM_EQ(Nil, v_2318946_25);
+if (True == v_2318947_25) {
 R[1] = v_c;
 R[2] = v_a;
 saveCont(co, clofun49, 3, R);
@@ -6932,61 +6932,61 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318091_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318091_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318091_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318091_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318091_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317972_25);
+coraCall0(co, v_2318091_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318830_25= co->res;
-Obj v_2318827_25 = R[1];
+Obj v_2318951_25= co->res;
+Obj v_2318948_25 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318827_25, v_2318830_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_2318948_25, v_2318951_25);
 return;
 }
 case 2:
 {
-Obj v_2318828_25= co->res;
+Obj v_2318949_25= co->res;
 Obj v_a = R[1];
-Obj v_2318827_25 = R[2];
-Obj v_2318829_25 = makeCons(co->gc, v_a, Nil);
-R[1] = v_2318827_25;
+Obj v_2318948_25 = R[2];
+Obj v_2318950_25 = makeCons(co->gc, v_a, Nil);
+R[1] = v_2318948_25;
 saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318828_25, v_2318829_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318949_25, v_2318950_25);
 return;
 }
 case 3:
 {
-Obj v_2318827_25= co->res;
+Obj v_2318948_25= co->res;
 Obj v_c = R[1];
 Obj v_a = R[2];
 R[1] = v_a;
-R[2] = v_2318827_25;
+R[2] = v_2318948_25;
 saveCont(co, clofun49, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_c);
 return;
@@ -6998,38 +6998,38 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317973_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
-Obj v_2318791_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318791_25) {
-Obj v_2318792_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318793_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318792_25);
-if (True == v_2318793_25) {
-Obj v_2318794_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318795_25 = PRIM_ISCONS(v_2318794_25);
-if (True == v_2318795_25) {
-Obj v_2318796_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318797_25 = PRIM_CAR(v_2318796_25);
-Obj v_lam = v_2318797_25;
-Obj v_2318798_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318799_25 = PRIM_CDR(v_2318798_25);
-Obj v_more = v_2318799_25;
-Obj v_2318800_25 = makeCons(co->gc, v_lam, v_more);
+Obj v_2318092_25 = makeNative(co->gc, 1, clofun47, 0, 1, closureRef(R[0], 0));
+Obj v_2318912_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318912_25) {
+Obj v_2318913_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318914_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318913_25);
+if (True == v_2318914_25) {
+Obj v_2318915_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318916_25 = PRIM_ISCONS(v_2318915_25);
+if (True == v_2318916_25) {
+Obj v_2318917_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318918_25 = PRIM_CAR(v_2318917_25);
+Obj v_lam = v_2318918_25;
+Obj v_2318919_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318920_25 = PRIM_CDR(v_2318919_25);
+Obj v_more = v_2318920_25;
+Obj v_2318921_25 = makeCons(co->gc, v_lam, v_more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318800_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_2318921_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317973_25);
+coraCall0(co, v_2318092_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317973_25);
+coraCall0(co, v_2318092_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317973_25);
+coraCall0(co, v_2318092_25);
 return;
 }
 }
@@ -7040,43 +7040,43 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317974_25 = makeNative(co->gc, 1, clofun46, 0, 1, closureRef(R[0], 0));
-Obj v_2318781_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318781_25) {
-Obj v_2318782_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318783_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318782_25);
-if (True == v_2318783_25) {
-Obj v_2318784_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318785_25 = PRIM_ISCONS(v_2318784_25);
-if (True == v_2318785_25) {
-Obj v_2318786_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318787_25 = PRIM_CAR(v_2318786_25);
-Obj v_x = v_2318787_25;
-Obj v_2318788_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318789_25 = PRIM_CDR(v_2318788_25);
-Obj v_2318790_25 = PRIM_EQ(Nil, v_2318789_25);
-if (True == v_2318790_25) {
+Obj v_2318093_25 = makeNative(co->gc, 1, clofun46, 0, 1, closureRef(R[0], 0));
+Obj v_2318902_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318902_25) {
+Obj v_2318903_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318904_25 = PRIM_EQ(getBinding(co, packageID, 99).name, v_2318903_25);
+if (True == v_2318904_25) {
+Obj v_2318905_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318906_25 = PRIM_ISCONS(v_2318905_25);
+if (True == v_2318906_25) {
+Obj v_2318907_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318908_25 = PRIM_CAR(v_2318907_25);
+Obj v_x = v_2318908_25;
+Obj v_2318909_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318910_25 = PRIM_CDR(v_2318909_25);
+Obj v_2318911_25 = PRIM_EQ(Nil, v_2318910_25);
+if (True == v_2318911_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317974_25);
+coraCall0(co, v_2318093_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317974_25);
+coraCall0(co, v_2318093_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317974_25);
+coraCall0(co, v_2318093_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317974_25);
+coraCall0(co, v_2318093_25);
 return;
 }
 }
@@ -7087,67 +7087,67 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317975_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
-Obj v_2318761_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318761_25) {
-Obj v_2318762_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318763_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318762_25);
-if (True == v_2318763_25) {
-Obj v_2318764_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318765_25 = PRIM_ISCONS(v_2318764_25);
-if (True == v_2318765_25) {
-Obj v_2318766_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318767_25 = PRIM_CAR(v_2318766_25);
-Obj v_exp = v_2318767_25;
-Obj v_2318768_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318769_25 = PRIM_CDR(v_2318768_25);
-Obj v_2318770_25 = PRIM_ISCONS(v_2318769_25);
-if (True == v_2318770_25) {
-Obj v_2318771_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318772_25 = PRIM_CDR(v_2318771_25);
-Obj v_2318773_25 = PRIM_CAR(v_2318772_25);
-Obj v_cont = v_2318773_25;
-Obj v_2318774_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318775_25 = PRIM_CDR(v_2318774_25);
-Obj v_2318776_25 = PRIM_CDR(v_2318775_25);
-Obj v_2318777_25 = PRIM_EQ(Nil, v_2318776_25);
-if (True == v_2318777_25) {
-Obj v_2318778_25 = makeCons(co->gc, v_cont, Nil);
-Obj v_2318779_25 = makeCons(co->gc, v_exp, v_2318778_25);
+Obj v_2318094_25 = makeNative(co->gc, 1, clofun45, 0, 1, closureRef(R[0], 0));
+Obj v_2318882_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318882_25) {
+Obj v_2318883_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318884_25 = PRIM_EQ(getBinding(co, packageID, 98).name, v_2318883_25);
+if (True == v_2318884_25) {
+Obj v_2318885_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318886_25 = PRIM_ISCONS(v_2318885_25);
+if (True == v_2318886_25) {
+Obj v_2318887_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318888_25 = PRIM_CAR(v_2318887_25);
+Obj v_exp = v_2318888_25;
+Obj v_2318889_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318890_25 = PRIM_CDR(v_2318889_25);
+Obj v_2318891_25 = PRIM_ISCONS(v_2318890_25);
+if (True == v_2318891_25) {
+Obj v_2318892_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318893_25 = PRIM_CDR(v_2318892_25);
+Obj v_2318894_25 = PRIM_CAR(v_2318893_25);
+Obj v_cont = v_2318894_25;
+Obj v_2318895_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318896_25 = PRIM_CDR(v_2318895_25);
+Obj v_2318897_25 = PRIM_CDR(v_2318896_25);
+Obj v_2318898_25 = PRIM_EQ(Nil, v_2318897_25);
+if (True == v_2318898_25) {
+Obj v_2318899_25 = makeCons(co->gc, v_cont, Nil);
+Obj v_2318900_25 = makeCons(co->gc, v_exp, v_2318899_25);
 saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318779_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318900_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317975_25);
+coraCall0(co, v_2318094_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317975_25);
+coraCall0(co, v_2318094_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317975_25);
+coraCall0(co, v_2318094_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317975_25);
+coraCall0(co, v_2318094_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317975_25);
+coraCall0(co, v_2318094_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318780_25= co->res;
+Obj v_2318901_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318780_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318901_25);
 return;
 }
 }
@@ -7157,43 +7157,43 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317976_25 = makeNative(co->gc, 2, clofun44, 0, 1, closureRef(R[0], 0));
-Obj v_2318751_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318751_25) {
-Obj v_2318752_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318753_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318752_25);
-if (True == v_2318753_25) {
-Obj v_2318754_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318755_25 = PRIM_ISCONS(v_2318754_25);
-if (True == v_2318755_25) {
-Obj v_2318756_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318757_25 = PRIM_CAR(v_2318756_25);
-Obj v_exp = v_2318757_25;
-Obj v_2318758_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318759_25 = PRIM_CDR(v_2318758_25);
-Obj v_2318760_25 = PRIM_EQ(Nil, v_2318759_25);
-if (True == v_2318760_25) {
+Obj v_2318095_25 = makeNative(co->gc, 2, clofun44, 0, 1, closureRef(R[0], 0));
+Obj v_2318872_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318872_25) {
+Obj v_2318873_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318874_25 = PRIM_EQ(getBinding(co, packageID, 97).name, v_2318873_25);
+if (True == v_2318874_25) {
+Obj v_2318875_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318876_25 = PRIM_ISCONS(v_2318875_25);
+if (True == v_2318876_25) {
+Obj v_2318877_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318878_25 = PRIM_CAR(v_2318877_25);
+Obj v_exp = v_2318878_25;
+Obj v_2318879_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318880_25 = PRIM_CDR(v_2318879_25);
+Obj v_2318881_25 = PRIM_EQ(Nil, v_2318880_25);
+if (True == v_2318881_25) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317976_25);
+coraCall0(co, v_2318095_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317976_25);
+coraCall0(co, v_2318095_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317976_25);
+coraCall0(co, v_2318095_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317976_25);
+coraCall0(co, v_2318095_25);
 return;
 }
 }
@@ -7204,67 +7204,67 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317977_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj v_2318733_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318733_25) {
-Obj v_2318734_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318735_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318734_25);
-if (True == v_2318735_25) {
-Obj v_2318736_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318737_25 = PRIM_ISCONS(v_2318736_25);
-if (True == v_2318737_25) {
-Obj v_2318738_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318739_25 = PRIM_CAR(v_2318738_25);
-Obj v_arg = v_2318739_25;
-Obj v_2318740_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318741_25 = PRIM_CDR(v_2318740_25);
-Obj v_2318742_25 = PRIM_ISCONS(v_2318741_25);
-if (True == v_2318742_25) {
-Obj v_2318743_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318744_25 = PRIM_CDR(v_2318743_25);
-Obj v_2318745_25 = PRIM_CAR(v_2318744_25);
-Obj v_body = v_2318745_25;
-Obj v_2318746_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318747_25 = PRIM_CDR(v_2318746_25);
-Obj v_2318748_25 = PRIM_CDR(v_2318747_25);
-Obj v_2318749_25 = PRIM_EQ(Nil, v_2318748_25);
-if (True == v_2318749_25) {
+Obj v_2318096_25 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v_2318854_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318854_25) {
+Obj v_2318855_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318856_25 = PRIM_EQ(getBinding(co, packageID, 96).name, v_2318855_25);
+if (True == v_2318856_25) {
+Obj v_2318857_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318858_25 = PRIM_ISCONS(v_2318857_25);
+if (True == v_2318858_25) {
+Obj v_2318859_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318860_25 = PRIM_CAR(v_2318859_25);
+Obj v_arg = v_2318860_25;
+Obj v_2318861_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318862_25 = PRIM_CDR(v_2318861_25);
+Obj v_2318863_25 = PRIM_ISCONS(v_2318862_25);
+if (True == v_2318863_25) {
+Obj v_2318864_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318865_25 = PRIM_CDR(v_2318864_25);
+Obj v_2318866_25 = PRIM_CAR(v_2318865_25);
+Obj v_body = v_2318866_25;
+Obj v_2318867_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318868_25 = PRIM_CDR(v_2318867_25);
+Obj v_2318869_25 = PRIM_CDR(v_2318868_25);
+Obj v_2318870_25 = PRIM_EQ(Nil, v_2318869_25);
+if (True == v_2318870_25) {
 R[1] = v_arg;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v_body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318096_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318096_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318096_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318096_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317977_25);
+coraCall0(co, v_2318096_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318750_25= co->res;
+Obj v_2318871_25= co->res;
 Obj v_arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318750_25, v_arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_2318871_25, v_arg);
 return;
 }
 }
@@ -7274,15 +7274,15 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318728_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318728_25) {
-Obj v_2318729_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_f = v_2318729_25;
-Obj v_2318730_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318730_25;
-Obj v_2318731_25 = makeCons(co->gc, v_f, v_args);
+Obj v_2318849_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318849_25) {
+Obj v_2318850_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_f = v_2318850_25;
+Obj v_2318851_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318851_25;
+Obj v_2318852_25 = makeCons(co->gc, v_f, v_args);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318731_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBinding(co, packageID, 71)), v_2318852_25);
 return;
 } else {
 co->ctx.sp = R;
@@ -7292,9 +7292,9 @@ return;
 }
 case 1:
 {
-Obj v_2318732_25= co->res;
+Obj v_2318853_25= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318732_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), globalRef(co, getBinding(co, packageID, 74)), Nil, v_2318853_25);
 return;
 }
 }
@@ -7304,42 +7304,42 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317958_25 = R[1];
-Obj v_2317959_25 = makeNative(co->gc, 1, clofun41, 0, 1, v_2317958_25);
-Obj v_2318714_25 = PRIM_ISCONS(v_2317958_25);
-if (True == v_2318714_25) {
-Obj v_2318715_25 = PRIM_CAR(v_2317958_25);
-Obj v_2318716_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318715_25);
-if (True == v_2318716_25) {
-Obj v_2318717_25 = PRIM_CDR(v_2317958_25);
-Obj v_2318718_25 = PRIM_ISCONS(v_2318717_25);
-if (True == v_2318718_25) {
-Obj v_2318719_25 = PRIM_CDR(v_2317958_25);
-Obj v_2318720_25 = PRIM_CAR(v_2318719_25);
-Obj v_2318721_25 = PRIM_CDR(v_2317958_25);
-Obj v_2318722_25 = PRIM_CDR(v_2318721_25);
-Obj v_2318723_25 = PRIM_EQ(Nil, v_2318722_25);
-if (True == v_2318723_25) {
+Obj v_2318077_25 = R[1];
+Obj v_2318078_25 = makeNative(co->gc, 1, clofun41, 0, 1, v_2318077_25);
+Obj v_2318835_25 = PRIM_ISCONS(v_2318077_25);
+if (True == v_2318835_25) {
+Obj v_2318836_25 = PRIM_CAR(v_2318077_25);
+Obj v_2318837_25 = PRIM_EQ(getBinding(co, packageID, 92).name, v_2318836_25);
+if (True == v_2318837_25) {
+Obj v_2318838_25 = PRIM_CDR(v_2318077_25);
+Obj v_2318839_25 = PRIM_ISCONS(v_2318838_25);
+if (True == v_2318839_25) {
+Obj v_2318840_25 = PRIM_CDR(v_2318077_25);
+Obj v_2318841_25 = PRIM_CAR(v_2318840_25);
+Obj v_2318842_25 = PRIM_CDR(v_2318077_25);
+Obj v_2318843_25 = PRIM_CDR(v_2318842_25);
+Obj v_2318844_25 = PRIM_EQ(Nil, v_2318843_25);
+if (True == v_2318844_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318078_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318078_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318078_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317959_25);
+coraCall0(co, v_2318078_25);
 return;
 }
 }
@@ -7350,41 +7350,41 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317960_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v_2318704_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318704_25) {
-Obj v_2318705_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318706_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318705_25);
-if (True == v_2318706_25) {
-Obj v_2318707_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318708_25 = PRIM_ISCONS(v_2318707_25);
-if (True == v_2318708_25) {
-Obj v_2318709_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318710_25 = PRIM_CAR(v_2318709_25);
-Obj v_2318711_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318712_25 = PRIM_CDR(v_2318711_25);
-Obj v_2318713_25 = PRIM_EQ(Nil, v_2318712_25);
-if (True == v_2318713_25) {
+Obj v_2318079_25 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v_2318825_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318825_25) {
+Obj v_2318826_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318827_25 = PRIM_EQ(getBinding(co, packageID, 91).name, v_2318826_25);
+if (True == v_2318827_25) {
+Obj v_2318828_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318829_25 = PRIM_ISCONS(v_2318828_25);
+if (True == v_2318829_25) {
+Obj v_2318830_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318831_25 = PRIM_CAR(v_2318830_25);
+Obj v_2318832_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318833_25 = PRIM_CDR(v_2318832_25);
+Obj v_2318834_25 = PRIM_EQ(Nil, v_2318833_25);
+if (True == v_2318834_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317960_25);
+coraCall0(co, v_2318079_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317960_25);
+coraCall0(co, v_2318079_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317960_25);
+coraCall0(co, v_2318079_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317960_25);
+coraCall0(co, v_2318079_25);
 return;
 }
 }
@@ -7395,41 +7395,41 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317961_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v_2318694_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318694_25) {
-Obj v_2318695_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318696_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2318695_25);
-if (True == v_2318696_25) {
-Obj v_2318697_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318698_25 = PRIM_ISCONS(v_2318697_25);
-if (True == v_2318698_25) {
-Obj v_2318699_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318700_25 = PRIM_CAR(v_2318699_25);
-Obj v_2318701_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318702_25 = PRIM_CDR(v_2318701_25);
-Obj v_2318703_25 = PRIM_EQ(Nil, v_2318702_25);
-if (True == v_2318703_25) {
+Obj v_2318080_25 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v_2318815_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318815_25) {
+Obj v_2318816_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318817_25 = PRIM_EQ(getBinding(co, packageID, 90).name, v_2318816_25);
+if (True == v_2318817_25) {
+Obj v_2318818_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318819_25 = PRIM_ISCONS(v_2318818_25);
+if (True == v_2318819_25) {
+Obj v_2318820_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318821_25 = PRIM_CAR(v_2318820_25);
+Obj v_2318822_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318823_25 = PRIM_CDR(v_2318822_25);
+Obj v_2318824_25 = PRIM_EQ(Nil, v_2318823_25);
+if (True == v_2318824_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317961_25);
+coraCall0(co, v_2318080_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317961_25);
+coraCall0(co, v_2318080_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317961_25);
+coraCall0(co, v_2318080_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317961_25);
+coraCall0(co, v_2318080_25);
 return;
 }
 }
@@ -7440,41 +7440,41 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317962_25 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v_2318684_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318684_25) {
-Obj v_2318685_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318686_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318685_25);
-if (True == v_2318686_25) {
-Obj v_2318687_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318688_25 = PRIM_ISCONS(v_2318687_25);
-if (True == v_2318688_25) {
-Obj v_2318689_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318690_25 = PRIM_CAR(v_2318689_25);
-Obj v_2318691_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318692_25 = PRIM_CDR(v_2318691_25);
-Obj v_2318693_25 = PRIM_EQ(Nil, v_2318692_25);
-if (True == v_2318693_25) {
+Obj v_2318081_25 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v_2318805_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318805_25) {
+Obj v_2318806_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318807_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318806_25);
+if (True == v_2318807_25) {
+Obj v_2318808_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318809_25 = PRIM_ISCONS(v_2318808_25);
+if (True == v_2318809_25) {
+Obj v_2318810_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318811_25 = PRIM_CAR(v_2318810_25);
+Obj v_2318812_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318813_25 = PRIM_CDR(v_2318812_25);
+Obj v_2318814_25 = PRIM_EQ(Nil, v_2318813_25);
+if (True == v_2318814_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317962_25);
+coraCall0(co, v_2318081_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317962_25);
+coraCall0(co, v_2318081_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317962_25);
+coraCall0(co, v_2318081_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317962_25);
+coraCall0(co, v_2318081_25);
 return;
 }
 }
@@ -7485,41 +7485,41 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317963_25 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v_2318674_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318674_25) {
-Obj v_2318675_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318676_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318675_25);
-if (True == v_2318676_25) {
-Obj v_2318677_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318678_25 = PRIM_ISCONS(v_2318677_25);
-if (True == v_2318678_25) {
-Obj v_2318679_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318680_25 = PRIM_CAR(v_2318679_25);
-Obj v_2318681_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318682_25 = PRIM_CDR(v_2318681_25);
-Obj v_2318683_25 = PRIM_EQ(Nil, v_2318682_25);
-if (True == v_2318683_25) {
+Obj v_2318082_25 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v_2318795_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318795_25) {
+Obj v_2318796_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318797_25 = PRIM_EQ(getBinding(co, packageID, 93).name, v_2318796_25);
+if (True == v_2318797_25) {
+Obj v_2318798_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318799_25 = PRIM_ISCONS(v_2318798_25);
+if (True == v_2318799_25) {
+Obj v_2318800_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318801_25 = PRIM_CAR(v_2318800_25);
+Obj v_2318802_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318803_25 = PRIM_CDR(v_2318802_25);
+Obj v_2318804_25 = PRIM_EQ(Nil, v_2318803_25);
+if (True == v_2318804_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317963_25);
+coraCall0(co, v_2318082_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317963_25);
+coraCall0(co, v_2318082_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317963_25);
+coraCall0(co, v_2318082_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317963_25);
+coraCall0(co, v_2318082_25);
 return;
 }
 }
@@ -7530,50 +7530,50 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317964_25 = makeNative(co->gc, 1, clofun36, 0, 0);
-Obj v_2318664_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318664_25) {
-Obj v_2318665_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318666_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318665_25);
-if (True == v_2318666_25) {
-Obj v_2318667_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318668_25 = PRIM_ISCONS(v_2318667_25);
-if (True == v_2318668_25) {
-Obj v_2318669_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318670_25 = PRIM_CAR(v_2318669_25);
-Obj v_label = v_2318670_25;
-Obj v_2318671_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318672_25 = PRIM_CDR(v_2318671_25);
-R[1] = v_2317964_25;
+Obj v_2318083_25 = makeNative(co->gc, 1, clofun36, 0, 0);
+Obj v_2318785_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318785_25) {
+Obj v_2318786_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318787_25 = PRIM_EQ(getBinding(co, packageID, 94).name, v_2318786_25);
+if (True == v_2318787_25) {
+Obj v_2318788_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318789_25 = PRIM_ISCONS(v_2318788_25);
+if (True == v_2318789_25) {
+Obj v_2318790_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318791_25 = PRIM_CAR(v_2318790_25);
+Obj v_label = v_2318791_25;
+Obj v_2318792_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318793_25 = PRIM_CDR(v_2318792_25);
+R[1] = v_2318083_25;
 saveCont(co, clofun37, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317964_25);
+coraCall0(co, v_2318083_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317964_25);
+coraCall0(co, v_2318083_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317964_25);
+coraCall0(co, v_2318083_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318673_25= co->res;
-Obj v_2317964_25 = R[1];
-if (True == v_2318673_25) {
+Obj v_2318794_25= co->res;
+Obj v_2318083_25 = R[1];
+if (True == v_2318794_25) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317964_25);
+coraCall0(co, v_2318083_25);
 return;
 }
 }
@@ -7594,46 +7594,46 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317953_25 = R[1];
-Obj v_2317954_25 = R[2];
-Obj v_2318653_25 = PRIM_EQ(Nil, v_2317953_25);
-if (True == v_2318653_25) {
+Obj v_2318072_25 = R[1];
+Obj v_2318073_25 = R[2];
+Obj v_2318774_25 = PRIM_EQ(Nil, v_2318072_25);
+if (True == v_2318774_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317956_25 = makeNative(co->gc, 2, clofun34, 0, 2, v_2317953_25, v_2317954_25);
-Obj v_2318659_25 = PRIM_ISCONS(v_2317953_25);
-if (True == v_2318659_25) {
-Obj v_2318660_25 = PRIM_CAR(v_2317953_25);
-Obj v_x = v_2318660_25;
-Obj v_2318661_25 = PRIM_CDR(v_2317953_25);
-Obj v_y = v_2318661_25;
+Obj v_2318075_25 = makeNative(co->gc, 2, clofun34, 0, 2, v_2318072_25, v_2318073_25);
+Obj v_2318780_25 = PRIM_ISCONS(v_2318072_25);
+if (True == v_2318780_25) {
+Obj v_2318781_25 = PRIM_CAR(v_2318072_25);
+Obj v_x = v_2318781_25;
+Obj v_2318782_25 = PRIM_CDR(v_2318072_25);
+Obj v_y = v_2318782_25;
 R[1] = v_y;
-R[2] = v_2317954_25;
-R[3] = v_2317956_25;
+R[2] = v_2318073_25;
+R[3] = v_2318075_25;
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2317954_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318073_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317956_25);
+coraCall0(co, v_2318075_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318662_25= co->res;
+Obj v_2318783_25= co->res;
 Obj v_y = R[1];
-Obj v_2317954_25 = R[2];
-Obj v_2317956_25 = R[3];
-if (True == v_2318662_25) {
+Obj v_2318073_25 = R[2];
+Obj v_2318075_25 = R[3];
+if (True == v_2318783_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2317954_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, v_2318073_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317956_25);
+coraCall0(co, v_2318075_25);
 return;
 }
 }
@@ -7644,12 +7644,12 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318654_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318654_25) {
-Obj v_2318655_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318655_25;
-Obj v_2318656_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318656_25;
+Obj v_2318775_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318775_25) {
+Obj v_2318776_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318776_25;
+Obj v_2318777_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318777_25;
 R[1] = v_x;
 saveCont(co, clofun34, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, closureRef(R[0], 1));
@@ -7662,10 +7662,10 @@ return;
 }
 case 1:
 {
-Obj v_2318657_25= co->res;
+Obj v_2318778_25= co->res;
 Obj v_x = R[1];
-Obj v_2318658_25 = makeCons(co->gc, v_x, v_2318657_25);
-coraReturn(co, v_2318658_25);
+Obj v_2318779_25 = makeCons(co->gc, v_x, v_2318778_25);
+coraReturn(co, v_2318779_25);
 return;
 }
 }
@@ -7675,46 +7675,46 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317948_25 = R[1];
-Obj v_2317949_25 = R[2];
-Obj v_2318642_25 = PRIM_EQ(Nil, v_2317948_25);
-if (True == v_2318642_25) {
-coraReturn(co, v_2317949_25);
+Obj v_2318067_25 = R[1];
+Obj v_2318068_25 = R[2];
+Obj v_2318763_25 = PRIM_EQ(Nil, v_2318067_25);
+if (True == v_2318763_25) {
+coraReturn(co, v_2318068_25);
 return;
 } else {
-Obj v_2317951_25 = makeNative(co->gc, 2, clofun32, 0, 2, v_2317948_25, v_2317949_25);
-Obj v_2318648_25 = PRIM_ISCONS(v_2317948_25);
-if (True == v_2318648_25) {
-Obj v_2318649_25 = PRIM_CAR(v_2317948_25);
-Obj v_x = v_2318649_25;
-Obj v_2318650_25 = PRIM_CDR(v_2317948_25);
-Obj v_y = v_2318650_25;
+Obj v_2318070_25 = makeNative(co->gc, 2, clofun32, 0, 2, v_2318067_25, v_2318068_25);
+Obj v_2318769_25 = PRIM_ISCONS(v_2318067_25);
+if (True == v_2318769_25) {
+Obj v_2318770_25 = PRIM_CAR(v_2318067_25);
+Obj v_x = v_2318770_25;
+Obj v_2318771_25 = PRIM_CDR(v_2318067_25);
+Obj v_y = v_2318771_25;
 R[1] = v_y;
-R[2] = v_2317949_25;
-R[3] = v_2317951_25;
+R[2] = v_2318068_25;
+R[3] = v_2318070_25;
 saveCont(co, clofun33, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2317949_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318068_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317951_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318651_25= co->res;
+Obj v_2318772_25= co->res;
 Obj v_y = R[1];
-Obj v_2317949_25 = R[2];
-Obj v_2317951_25 = R[3];
-if (True == v_2318651_25) {
+Obj v_2318068_25 = R[2];
+Obj v_2318070_25 = R[3];
+if (True == v_2318772_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2317949_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, v_2318068_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317951_25);
+coraCall0(co, v_2318070_25);
 return;
 }
 }
@@ -7725,12 +7725,12 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318643_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318643_25) {
-Obj v_2318644_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318644_25;
-Obj v_2318645_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318645_25;
+Obj v_2318764_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318764_25) {
+Obj v_2318765_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318765_25;
+Obj v_2318766_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318766_25;
 R[1] = v_x;
 saveCont(co, clofun32, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, closureRef(R[0], 1));
@@ -7743,10 +7743,10 @@ return;
 }
 case 1:
 {
-Obj v_2318646_25= co->res;
+Obj v_2318767_25= co->res;
 Obj v_x = R[1];
-Obj v_2318647_25 = makeCons(co->gc, v_x, v_2318646_25);
-coraReturn(co, v_2318647_25);
+Obj v_2318768_25 = makeCons(co->gc, v_x, v_2318767_25);
+coraReturn(co, v_2318768_25);
 return;
 }
 }
@@ -7756,67 +7756,67 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317933_25 = R[1];
-Obj v_2317934_25 = R[2];
-Obj v_2317935_25 = R[3];
-Obj v_2317936_25 = R[4];
-Obj v_2318103_25 = makeNative(co->gc, 2, clofun30, 1, 4, v_2317934_25, v_2317933_25, v_2317936_25, v_2317935_25);
-R[1] = v_2317936_25;
-R[2] = v_2318103_25;
+Obj v_2318052_25 = R[1];
+Obj v_2318053_25 = R[2];
+Obj v_2318054_25 = R[3];
+Obj v_2318055_25 = R[4];
+Obj v_2318224_25 = makeNative(co->gc, 2, clofun30, 1, 4, v_2318053_25, v_2318052_25, v_2318055_25, v_2318054_25);
+R[1] = v_2318055_25;
+R[2] = v_2318224_25;
 saveCont(co, clofun31, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2317936_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v_2318055_25);
 return;
 }
 case 1:
 {
-Obj v_2318640_25= co->res;
-Obj v_2318103_25 = R[1];
-if (True == v_2318640_25) {
+Obj v_2318761_25= co->res;
+Obj v_2318224_25 = R[1];
+if (True == v_2318761_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318103_25, True);
+coraCall1(co, v_2318224_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318103_25, False);
+coraCall1(co, v_2318224_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318639_25= co->res;
-Obj v_2317936_25 = R[1];
-Obj v_2318103_25 = R[2];
-if (True == v_2318639_25) {
+Obj v_2318760_25= co->res;
+Obj v_2318055_25 = R[1];
+Obj v_2318224_25 = R[2];
+if (True == v_2318760_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318103_25, True);
+coraCall1(co, v_2318224_25, True);
 return;
 } else {
-R[1] = v_2318103_25;
+R[1] = v_2318224_25;
 saveCont(co, clofun31, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2317936_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318055_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2318637_25= co->res;
-Obj v_2317936_25 = R[1];
-Obj v_2318103_25 = R[2];
-if (True == v_2318637_25) {
+Obj v_2318758_25= co->res;
+Obj v_2318055_25 = R[1];
+Obj v_2318224_25 = R[2];
+if (True == v_2318758_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318103_25, True);
+coraCall1(co, v_2318224_25, True);
 return;
 } else {
-Obj v_2318638_25 = primIsString(v_2317936_25);
-if (True == v_2318638_25) {
+Obj v_2318759_25 = primIsString(v_2318055_25);
+if (True == v_2318759_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318103_25, True);
+coraCall1(co, v_2318224_25, True);
 return;
 } else {
-R[1] = v_2317936_25;
-R[2] = v_2318103_25;
+R[1] = v_2318055_25;
+R[2] = v_2318224_25;
 saveCont(co, clofun31, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2317936_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_2318055_25);
 return;
 }
 }
@@ -7828,50 +7828,50 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318104_25 = R[1];
-if (True == v_2318104_25) {
-Obj v_2318440_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318440_25);
-coraReturn(co, v_2318441_25);
+Obj v_2318225_25 = R[1];
+if (True == v_2318225_25) {
+Obj v_2318561_25 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v_2318562_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318561_25);
+coraReturn(co, v_2318562_25);
 return;
 } else {
-Obj v_2317938_25 = makeNative(co->gc, 4, clofun29, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
-Obj v_2318627_25 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v_2318627_25) {
-Obj v_2318628_25 = PRIM_CAR(closureRef(R[0], 2));
-Obj v_2318629_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318628_25);
-if (True == v_2318629_25) {
-Obj v_2318630_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318631_25 = PRIM_ISCONS(v_2318630_25);
-if (True == v_2318631_25) {
-Obj v_2318632_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318633_25 = PRIM_CAR(v_2318632_25);
-Obj v_x = v_2318633_25;
-Obj v_2318634_25 = PRIM_CDR(closureRef(R[0], 2));
-Obj v_2318635_25 = PRIM_CDR(v_2318634_25);
-Obj v_2318636_25 = PRIM_EQ(Nil, v_2318635_25);
-if (True == v_2318636_25) {
+Obj v_2318057_25 = makeNative(co->gc, 4, clofun29, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 3));
+Obj v_2318748_25 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v_2318748_25) {
+Obj v_2318749_25 = PRIM_CAR(closureRef(R[0], 2));
+Obj v_2318750_25 = PRIM_EQ(getBinding(co, packageID, 77).name, v_2318749_25);
+if (True == v_2318750_25) {
+Obj v_2318751_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318752_25 = PRIM_ISCONS(v_2318751_25);
+if (True == v_2318752_25) {
+Obj v_2318753_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318754_25 = PRIM_CAR(v_2318753_25);
+Obj v_x = v_2318754_25;
+Obj v_2318755_25 = PRIM_CDR(closureRef(R[0], 2));
+Obj v_2318756_25 = PRIM_CDR(v_2318755_25);
+Obj v_2318757_25 = PRIM_EQ(Nil, v_2318756_25);
+if (True == v_2318757_25) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_x, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317938_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317938_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317938_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317938_25);
+coraCall0(co, v_2318057_25);
 return;
 }
 }
@@ -7883,39 +7883,39 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318442_25 = primIsSymbol(closureRef(R[0], 1));
-if (True == v_2318442_25) {
+Obj v_2318563_25 = primIsSymbol(closureRef(R[0], 1));
+if (True == v_2318563_25) {
 saveCont(co, clofun29, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2317940_25 = makeNative(co->gc, 1, clofun28, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
-Obj v_2318602_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318602_25) {
-Obj v_2318603_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_2318604_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318603_25);
-if (True == v_2318604_25) {
-Obj v_2318605_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318606_25 = PRIM_ISCONS(v_2318605_25);
-if (True == v_2318606_25) {
-Obj v_2318607_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318608_25 = PRIM_CAR(v_2318607_25);
-Obj v_args = v_2318608_25;
-Obj v_2318609_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318610_25 = PRIM_CDR(v_2318609_25);
-Obj v_2318611_25 = PRIM_ISCONS(v_2318610_25);
-if (True == v_2318611_25) {
-Obj v_2318612_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318613_25 = PRIM_CDR(v_2318612_25);
-Obj v_2318614_25 = PRIM_CAR(v_2318613_25);
-Obj v_body = v_2318614_25;
-Obj v_2318615_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_2318616_25 = PRIM_CDR(v_2318615_25);
-Obj v_2318617_25 = PRIM_CDR(v_2318616_25);
-Obj v_2318618_25 = PRIM_EQ(Nil, v_2318617_25);
-if (True == v_2318618_25) {
-Obj v_2318619_25 = primGenSym(co);
-Obj v_used1 = v_2318619_25;
+Obj v_2318059_25 = makeNative(co->gc, 1, clofun28, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 3));
+Obj v_2318723_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318723_25) {
+Obj v_2318724_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_2318725_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318724_25);
+if (True == v_2318725_25) {
+Obj v_2318726_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318727_25 = PRIM_ISCONS(v_2318726_25);
+if (True == v_2318727_25) {
+Obj v_2318728_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318729_25 = PRIM_CAR(v_2318728_25);
+Obj v_args = v_2318729_25;
+Obj v_2318730_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318731_25 = PRIM_CDR(v_2318730_25);
+Obj v_2318732_25 = PRIM_ISCONS(v_2318731_25);
+if (True == v_2318732_25) {
+Obj v_2318733_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318734_25 = PRIM_CDR(v_2318733_25);
+Obj v_2318735_25 = PRIM_CAR(v_2318734_25);
+Obj v_body = v_2318735_25;
+Obj v_2318736_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_2318737_25 = PRIM_CDR(v_2318736_25);
+Obj v_2318738_25 = PRIM_CDR(v_2318737_25);
+Obj v_2318739_25 = PRIM_EQ(Nil, v_2318738_25);
+if (True == v_2318739_25) {
+Obj v_2318740_25 = primGenSym(co);
+Obj v_used1 = v_2318740_25;
 R[1] = v_args;
 R[2] = v_used1;
 R[3] = v_body;
@@ -7924,57 +7924,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBin
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317940_25);
+coraCall0(co, v_2318059_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317940_25);
+coraCall0(co, v_2318059_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317940_25);
+coraCall0(co, v_2318059_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317940_25);
+coraCall0(co, v_2318059_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317940_25);
+coraCall0(co, v_2318059_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318445_25= co->res;
-Obj v_2318446_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v_2318447_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318446_25);
-coraReturn(co, v_2318447_25);
+Obj v_2318566_25= co->res;
+Obj v_2318567_25 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v_2318568_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318567_25);
+coraReturn(co, v_2318568_25);
 return;
 }
 case 2:
 {
-Obj v_2318444_25= co->res;
+Obj v_2318565_25= co->res;
 Obj v_find = R[1];
-if (True == v_2318444_25) {
+if (True == v_2318565_25) {
 saveCont(co, clofun29, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), closureRef(R[0], 1), closureRef(R[0], 3));
 return;
 } else {
-Obj v_2318448_25 = PRIM_CDR(v_find);
-coraReturn(co, v_2318448_25);
+Obj v_2318569_25 = PRIM_CDR(v_find);
+coraReturn(co, v_2318569_25);
 return;
 }
 }
 case 3:
 {
-Obj v_2318443_25= co->res;
-Obj v_find = v_2318443_25;
+Obj v_2318564_25= co->res;
+Obj v_find = v_2318564_25;
 R[1] = v_find;
 saveCont(co, clofun29, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_find);
@@ -7982,33 +7982,33 @@ return;
 }
 case 4:
 {
-Obj v_2318623_25= co->res;
+Obj v_2318744_25= co->res;
 Obj v_args1 = R[1];
-Obj v_2318624_25 = makeCons(co->gc, v_2318623_25, Nil);
-Obj v_2318625_25 = makeCons(co->gc, v_args1, v_2318624_25);
-Obj v_2318626_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318625_25);
-coraReturn(co, v_2318626_25);
+Obj v_2318745_25 = makeCons(co->gc, v_2318744_25, Nil);
+Obj v_2318746_25 = makeCons(co->gc, v_args1, v_2318745_25);
+Obj v_2318747_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318746_25);
+coraReturn(co, v_2318747_25);
 return;
 }
 case 5:
 {
-Obj v_2318622_25= co->res;
+Obj v_2318743_25= co->res;
 Obj v_used1 = R[1];
 Obj v_body = R[2];
 Obj v_args1 = R[3];
 R[1] = v_args1;
 saveCont(co, clofun29, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), v_2318622_25, v_used1, closureRef(R[0], 3), v_body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), v_2318743_25, v_used1, closureRef(R[0], 3), v_body);
 return;
 }
 case 6:
 {
-Obj v_2318620_25= co->res;
+Obj v_2318741_25= co->res;
 Obj v_args = R[1];
 Obj v_used1 = R[2];
 Obj v_body = R[3];
-Obj v_args1 = v_2318620_25;
-Obj v_2318621_25 = primSet(co, v_used1, v_args);
+Obj v_args1 = v_2318741_25;
+Obj v_2318742_25 = primSet(co, v_used1, v_args);
 R[1] = v_used1;
 R[2] = v_body;
 R[3] = v_args1;
@@ -8023,74 +8023,74 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317941_25 = makeNative(co->gc, 2, clofun27, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318570_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318570_25) {
-Obj v_2318571_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318572_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318571_25);
-if (True == v_2318572_25) {
-Obj v_2318573_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318574_25 = PRIM_ISCONS(v_2318573_25);
-if (True == v_2318574_25) {
-Obj v_2318575_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318576_25 = PRIM_CAR(v_2318575_25);
-Obj v_2318577_25 = PRIM_ISCONS(v_2318576_25);
-if (True == v_2318577_25) {
-Obj v_2318578_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318579_25 = PRIM_CAR(v_2318578_25);
-Obj v_2318580_25 = PRIM_CAR(v_2318579_25);
-Obj v_2318581_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318580_25);
-if (True == v_2318581_25) {
-Obj v_2318582_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318583_25 = PRIM_CAR(v_2318582_25);
-Obj v_2318584_25 = PRIM_CDR(v_2318583_25);
-Obj v_exp1 = v_2318584_25;
-Obj v_2318585_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318586_25 = PRIM_CDR(v_2318585_25);
-Obj v_exp2 = v_2318586_25;
-Obj v_2318587_25 = primGenSym(co);
-Obj v_f = v_2318587_25;
-Obj v_2318588_25 = primGenSym(co);
-Obj v_v = v_2318588_25;
-Obj v_2318589_25 = makeCons(co->gc, v_v, Nil);
-Obj v_2318590_25 = makeCons(co->gc, v_v, v_exp2);
-Obj v_2318591_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318590_25);
-Obj v_2318592_25 = makeCons(co->gc, v_2318591_25, Nil);
-Obj v_2318593_25 = makeCons(co->gc, v_2318589_25, v_2318592_25);
-Obj v_2318594_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318593_25);
-Obj v_2318595_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_exp1);
-Obj v_2318596_25 = makeCons(co->gc, v_2318595_25, Nil);
-Obj v_2318597_25 = makeCons(co->gc, v_f, v_2318596_25);
-Obj v_2318598_25 = makeCons(co->gc, v_2318597_25, Nil);
-Obj v_2318599_25 = makeCons(co->gc, v_2318594_25, v_2318598_25);
-Obj v_2318600_25 = makeCons(co->gc, v_f, v_2318599_25);
-Obj v_2318601_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318600_25);
+Obj v_2318060_25 = makeNative(co->gc, 2, clofun27, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318691_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318691_25) {
+Obj v_2318692_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318693_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318692_25);
+if (True == v_2318693_25) {
+Obj v_2318694_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318695_25 = PRIM_ISCONS(v_2318694_25);
+if (True == v_2318695_25) {
+Obj v_2318696_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318697_25 = PRIM_CAR(v_2318696_25);
+Obj v_2318698_25 = PRIM_ISCONS(v_2318697_25);
+if (True == v_2318698_25) {
+Obj v_2318699_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318700_25 = PRIM_CAR(v_2318699_25);
+Obj v_2318701_25 = PRIM_CAR(v_2318700_25);
+Obj v_2318702_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318701_25);
+if (True == v_2318702_25) {
+Obj v_2318703_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318704_25 = PRIM_CAR(v_2318703_25);
+Obj v_2318705_25 = PRIM_CDR(v_2318704_25);
+Obj v_exp1 = v_2318705_25;
+Obj v_2318706_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318707_25 = PRIM_CDR(v_2318706_25);
+Obj v_exp2 = v_2318707_25;
+Obj v_2318708_25 = primGenSym(co);
+Obj v_f = v_2318708_25;
+Obj v_2318709_25 = primGenSym(co);
+Obj v_v = v_2318709_25;
+Obj v_2318710_25 = makeCons(co->gc, v_v, Nil);
+Obj v_2318711_25 = makeCons(co->gc, v_v, v_exp2);
+Obj v_2318712_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318711_25);
+Obj v_2318713_25 = makeCons(co->gc, v_2318712_25, Nil);
+Obj v_2318714_25 = makeCons(co->gc, v_2318710_25, v_2318713_25);
+Obj v_2318715_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318714_25);
+Obj v_2318716_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_exp1);
+Obj v_2318717_25 = makeCons(co->gc, v_2318716_25, Nil);
+Obj v_2318718_25 = makeCons(co->gc, v_f, v_2318717_25);
+Obj v_2318719_25 = makeCons(co->gc, v_2318718_25, Nil);
+Obj v_2318720_25 = makeCons(co->gc, v_2318715_25, v_2318719_25);
+Obj v_2318721_25 = makeCons(co->gc, v_f, v_2318720_25);
+Obj v_2318722_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318721_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318601_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318722_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317941_25);
+coraCall0(co, v_2318060_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317941_25);
+coraCall0(co, v_2318060_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317941_25);
+coraCall0(co, v_2318060_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317941_25);
+coraCall0(co, v_2318060_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317941_25);
+coraCall0(co, v_2318060_25);
 return;
 }
 }
@@ -8101,42 +8101,42 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317942_25 = makeNative(co->gc, 2, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318563_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318563_25) {
-Obj v_2318564_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318565_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318564_25);
-if (True == v_2318565_25) {
-Obj v_2318566_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318566_25;
+Obj v_2318061_25 = makeNative(co->gc, 2, clofun26, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318684_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318684_25) {
+Obj v_2318685_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318686_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318685_25);
+if (True == v_2318686_25) {
+Obj v_2318687_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318687_25;
 R[1] = v_args;
 saveCont(co, clofun27, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317942_25);
+coraCall0(co, v_2318061_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317942_25);
+coraCall0(co, v_2318061_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318568_25= co->res;
-Obj v_2318569_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318568_25);
-coraReturn(co, v_2318569_25);
+Obj v_2318689_25= co->res;
+Obj v_2318690_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_2318689_25);
+coraReturn(co, v_2318690_25);
 return;
 }
 case 2:
 {
-Obj v_2318567_25= co->res;
+Obj v_2318688_25= co->res;
 Obj v_args = R[1];
 saveCont(co, clofun27, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318567_25, v_args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318688_25, v_args);
 return;
 }
 }
@@ -8146,76 +8146,76 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317943_25 = makeNative(co->gc, 4, clofun25, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318541_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318541_25) {
-Obj v_2318542_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318543_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318542_25);
-if (True == v_2318543_25) {
-Obj v_2318544_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318545_25 = PRIM_ISCONS(v_2318544_25);
-if (True == v_2318545_25) {
-Obj v_2318546_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318547_25 = PRIM_CAR(v_2318546_25);
-Obj v_x = v_2318547_25;
-Obj v_2318548_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318549_25 = PRIM_CDR(v_2318548_25);
-Obj v_2318550_25 = PRIM_ISCONS(v_2318549_25);
-if (True == v_2318550_25) {
-Obj v_2318551_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318552_25 = PRIM_CDR(v_2318551_25);
-Obj v_2318553_25 = PRIM_CAR(v_2318552_25);
-Obj v_y = v_2318553_25;
-Obj v_2318554_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318555_25 = PRIM_CDR(v_2318554_25);
-Obj v_2318556_25 = PRIM_CDR(v_2318555_25);
-Obj v_2318557_25 = PRIM_EQ(Nil, v_2318556_25);
-if (True == v_2318557_25) {
+Obj v_2318062_25 = makeNative(co->gc, 4, clofun25, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318662_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318662_25) {
+Obj v_2318663_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318664_25 = PRIM_EQ(getBinding(co, packageID, 78).name, v_2318663_25);
+if (True == v_2318664_25) {
+Obj v_2318665_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318666_25 = PRIM_ISCONS(v_2318665_25);
+if (True == v_2318666_25) {
+Obj v_2318667_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318668_25 = PRIM_CAR(v_2318667_25);
+Obj v_x = v_2318668_25;
+Obj v_2318669_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318670_25 = PRIM_CDR(v_2318669_25);
+Obj v_2318671_25 = PRIM_ISCONS(v_2318670_25);
+if (True == v_2318671_25) {
+Obj v_2318672_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318673_25 = PRIM_CDR(v_2318672_25);
+Obj v_2318674_25 = PRIM_CAR(v_2318673_25);
+Obj v_y = v_2318674_25;
+Obj v_2318675_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318676_25 = PRIM_CDR(v_2318675_25);
+Obj v_2318677_25 = PRIM_CDR(v_2318676_25);
+Obj v_2318678_25 = PRIM_EQ(Nil, v_2318677_25);
+if (True == v_2318678_25) {
 R[1] = v_y;
 saveCont(co, clofun26, 2, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317943_25);
+coraCall0(co, v_2318062_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317943_25);
+coraCall0(co, v_2318062_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317943_25);
+coraCall0(co, v_2318062_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317943_25);
+coraCall0(co, v_2318062_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317943_25);
+coraCall0(co, v_2318062_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318559_25= co->res;
-Obj v_2318558_25 = R[1];
-Obj v_2318560_25 = makeCons(co->gc, v_2318559_25, Nil);
-Obj v_2318561_25 = makeCons(co->gc, v_2318558_25, v_2318560_25);
-Obj v_2318562_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318561_25);
-coraReturn(co, v_2318562_25);
+Obj v_2318680_25= co->res;
+Obj v_2318679_25 = R[1];
+Obj v_2318681_25 = makeCons(co->gc, v_2318680_25, Nil);
+Obj v_2318682_25 = makeCons(co->gc, v_2318679_25, v_2318681_25);
+Obj v_2318683_25 = makeCons(co->gc, getBinding(co, packageID, 78).name, v_2318682_25);
+coraReturn(co, v_2318683_25);
 return;
 }
 case 2:
 {
-Obj v_2318558_25= co->res;
+Obj v_2318679_25= co->res;
 Obj v_y = R[1];
-R[1] = v_2318558_25;
+R[1] = v_2318679_25;
 saveCont(co, clofun26, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_y);
 return;
@@ -8227,42 +8227,42 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317944_25 = makeNative(co->gc, 1, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v_2318506_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318506_25) {
-Obj v_2318507_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318508_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318507_25);
-if (True == v_2318508_25) {
-Obj v_2318509_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318510_25 = PRIM_ISCONS(v_2318509_25);
-if (True == v_2318510_25) {
-Obj v_2318511_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318512_25 = PRIM_CAR(v_2318511_25);
-Obj v_a = v_2318512_25;
-Obj v_2318513_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318514_25 = PRIM_CDR(v_2318513_25);
-Obj v_2318515_25 = PRIM_ISCONS(v_2318514_25);
-if (True == v_2318515_25) {
-Obj v_2318516_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318517_25 = PRIM_CDR(v_2318516_25);
-Obj v_2318518_25 = PRIM_CAR(v_2318517_25);
-Obj v_b = v_2318518_25;
-Obj v_2318519_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318520_25 = PRIM_CDR(v_2318519_25);
-Obj v_2318521_25 = PRIM_CDR(v_2318520_25);
-Obj v_2318522_25 = PRIM_ISCONS(v_2318521_25);
-if (True == v_2318522_25) {
-Obj v_2318523_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318524_25 = PRIM_CDR(v_2318523_25);
-Obj v_2318525_25 = PRIM_CDR(v_2318524_25);
-Obj v_2318526_25 = PRIM_CAR(v_2318525_25);
-Obj v_c = v_2318526_25;
-Obj v_2318527_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318528_25 = PRIM_CDR(v_2318527_25);
-Obj v_2318529_25 = PRIM_CDR(v_2318528_25);
-Obj v_2318530_25 = PRIM_CDR(v_2318529_25);
-Obj v_2318531_25 = PRIM_EQ(Nil, v_2318530_25);
-if (True == v_2318531_25) {
+Obj v_2318063_25 = makeNative(co->gc, 1, clofun24, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v_2318627_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318627_25) {
+Obj v_2318628_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318629_25 = PRIM_EQ(getBinding(co, packageID, 102).name, v_2318628_25);
+if (True == v_2318629_25) {
+Obj v_2318630_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318631_25 = PRIM_ISCONS(v_2318630_25);
+if (True == v_2318631_25) {
+Obj v_2318632_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318633_25 = PRIM_CAR(v_2318632_25);
+Obj v_a = v_2318633_25;
+Obj v_2318634_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318635_25 = PRIM_CDR(v_2318634_25);
+Obj v_2318636_25 = PRIM_ISCONS(v_2318635_25);
+if (True == v_2318636_25) {
+Obj v_2318637_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318638_25 = PRIM_CDR(v_2318637_25);
+Obj v_2318639_25 = PRIM_CAR(v_2318638_25);
+Obj v_b = v_2318639_25;
+Obj v_2318640_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318641_25 = PRIM_CDR(v_2318640_25);
+Obj v_2318642_25 = PRIM_CDR(v_2318641_25);
+Obj v_2318643_25 = PRIM_ISCONS(v_2318642_25);
+if (True == v_2318643_25) {
+Obj v_2318644_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318645_25 = PRIM_CDR(v_2318644_25);
+Obj v_2318646_25 = PRIM_CDR(v_2318645_25);
+Obj v_2318647_25 = PRIM_CAR(v_2318646_25);
+Obj v_c = v_2318647_25;
+Obj v_2318648_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318649_25 = PRIM_CDR(v_2318648_25);
+Obj v_2318650_25 = PRIM_CDR(v_2318649_25);
+Obj v_2318651_25 = PRIM_CDR(v_2318650_25);
+Obj v_2318652_25 = PRIM_EQ(Nil, v_2318651_25);
+if (True == v_2318652_25) {
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun25, 3, R);
@@ -8270,68 +8270,68 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317944_25);
+coraCall0(co, v_2318063_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317944_25);
+coraCall0(co, v_2318063_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317944_25);
+coraCall0(co, v_2318063_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317944_25);
+coraCall0(co, v_2318063_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317944_25);
+coraCall0(co, v_2318063_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317944_25);
+coraCall0(co, v_2318063_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318536_25= co->res;
+Obj v_2318657_25= co->res;
 Obj v_b1 = R[1];
 Obj v_a1 = R[2];
-Obj v_2318537_25 = makeCons(co->gc, v_2318536_25, Nil);
-Obj v_2318538_25 = makeCons(co->gc, v_b1, v_2318537_25);
-Obj v_2318539_25 = makeCons(co->gc, v_a1, v_2318538_25);
-Obj v_2318540_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318539_25);
-coraReturn(co, v_2318540_25);
+Obj v_2318658_25 = makeCons(co->gc, v_2318657_25, Nil);
+Obj v_2318659_25 = makeCons(co->gc, v_b1, v_2318658_25);
+Obj v_2318660_25 = makeCons(co->gc, v_a1, v_2318659_25);
+Obj v_2318661_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318660_25);
+coraReturn(co, v_2318661_25);
 return;
 }
 case 2:
 {
-Obj v_2318533_25= co->res;
+Obj v_2318654_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
 Obj v_b1 = R[3];
-Obj v_a1 = v_2318533_25;
-Obj v_2318534_25 = makeCons(co->gc, v_a, v_a1);
-Obj v_2318535_25 = makeCons(co->gc, v_2318534_25, closureRef(R[0], 1));
+Obj v_a1 = v_2318654_25;
+Obj v_2318655_25 = makeCons(co->gc, v_a, v_a1);
+Obj v_2318656_25 = makeCons(co->gc, v_2318655_25, closureRef(R[0], 1));
 R[1] = v_b1;
 R[2] = v_a1;
 saveCont(co, clofun25, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), v_2318535_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), v_2318656_25, closureRef(R[0], 2), closureRef(R[0], 3), v_c);
 return;
 }
 case 3:
 {
-Obj v_2318532_25= co->res;
+Obj v_2318653_25= co->res;
 Obj v_a = R[1];
 Obj v_c = R[2];
-Obj v_b1 = v_2318532_25;
+Obj v_b1 = v_2318653_25;
 R[1] = v_a;
 R[2] = v_c;
 R[3] = v_b1;
@@ -8346,85 +8346,85 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317945_25 = makeNative(co->gc, 3, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
-Obj v_2318474_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318474_25) {
-Obj v_2318475_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318476_25 = PRIM_ISCONS(v_2318475_25);
-if (True == v_2318476_25) {
-Obj v_2318477_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318478_25 = PRIM_CAR(v_2318477_25);
-Obj v_2318479_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318478_25);
-if (True == v_2318479_25) {
-Obj v_2318480_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318481_25 = PRIM_CDR(v_2318480_25);
-Obj v_exp1 = v_2318481_25;
-Obj v_2318482_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318483_25 = PRIM_ISCONS(v_2318482_25);
-if (True == v_2318483_25) {
-Obj v_2318484_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318485_25 = PRIM_CAR(v_2318484_25);
-Obj v_2318486_25 = PRIM_ISCONS(v_2318485_25);
-if (True == v_2318486_25) {
-Obj v_2318487_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318488_25 = PRIM_CAR(v_2318487_25);
-Obj v_2318489_25 = PRIM_CAR(v_2318488_25);
-Obj v_2318490_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318489_25);
-if (True == v_2318490_25) {
-Obj v_2318491_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318492_25 = PRIM_CAR(v_2318491_25);
-Obj v_2318493_25 = PRIM_CDR(v_2318492_25);
-Obj v_exp2 = v_2318493_25;
-Obj v_2318494_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_2318495_25 = PRIM_CDR(v_2318494_25);
-Obj v_2318496_25 = PRIM_EQ(Nil, v_2318495_25);
-if (True == v_2318496_25) {
-Obj v_2318497_25 = primGenSym(co);
-Obj v_f = v_2318497_25;
-Obj v_2318498_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_exp1);
-Obj v_2318499_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_exp2);
-Obj v_2318500_25 = makeCons(co->gc, v_2318499_25, Nil);
-Obj v_2318501_25 = makeCons(co->gc, v_f, v_2318500_25);
-Obj v_2318502_25 = makeCons(co->gc, v_2318501_25, Nil);
-Obj v_2318503_25 = makeCons(co->gc, v_2318498_25, v_2318502_25);
-Obj v_2318504_25 = makeCons(co->gc, v_f, v_2318503_25);
-Obj v_2318505_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318504_25);
+Obj v_2318064_25 = makeNative(co->gc, 3, clofun23, 0, 4, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1));
+Obj v_2318595_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318595_25) {
+Obj v_2318596_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318597_25 = PRIM_ISCONS(v_2318596_25);
+if (True == v_2318597_25) {
+Obj v_2318598_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318599_25 = PRIM_CAR(v_2318598_25);
+Obj v_2318600_25 = PRIM_EQ(getBinding(co, packageID, 81).name, v_2318599_25);
+if (True == v_2318600_25) {
+Obj v_2318601_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318602_25 = PRIM_CDR(v_2318601_25);
+Obj v_exp1 = v_2318602_25;
+Obj v_2318603_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318604_25 = PRIM_ISCONS(v_2318603_25);
+if (True == v_2318604_25) {
+Obj v_2318605_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318606_25 = PRIM_CAR(v_2318605_25);
+Obj v_2318607_25 = PRIM_ISCONS(v_2318606_25);
+if (True == v_2318607_25) {
+Obj v_2318608_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318609_25 = PRIM_CAR(v_2318608_25);
+Obj v_2318610_25 = PRIM_CAR(v_2318609_25);
+Obj v_2318611_25 = PRIM_EQ(getBinding(co, packageID, 79).name, v_2318610_25);
+if (True == v_2318611_25) {
+Obj v_2318612_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318613_25 = PRIM_CAR(v_2318612_25);
+Obj v_2318614_25 = PRIM_CDR(v_2318613_25);
+Obj v_exp2 = v_2318614_25;
+Obj v_2318615_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_2318616_25 = PRIM_CDR(v_2318615_25);
+Obj v_2318617_25 = PRIM_EQ(Nil, v_2318616_25);
+if (True == v_2318617_25) {
+Obj v_2318618_25 = primGenSym(co);
+Obj v_f = v_2318618_25;
+Obj v_2318619_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_exp1);
+Obj v_2318620_25 = makeCons(co->gc, getBinding(co, packageID, 79).name, v_exp2);
+Obj v_2318621_25 = makeCons(co->gc, v_2318620_25, Nil);
+Obj v_2318622_25 = makeCons(co->gc, v_f, v_2318621_25);
+Obj v_2318623_25 = makeCons(co->gc, v_2318622_25, Nil);
+Obj v_2318624_25 = makeCons(co->gc, v_2318619_25, v_2318623_25);
+Obj v_2318625_25 = makeCons(co->gc, v_f, v_2318624_25);
+Obj v_2318626_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318625_25);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318505_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_2318626_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317945_25);
+coraCall0(co, v_2318064_25);
 return;
 }
 }
@@ -8435,61 +8435,61 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317946_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v_2318450_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318450_25) {
-Obj v_2318451_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_op = v_2318451_25;
-Obj v_2318452_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_args = v_2318452_25;
-Obj v_2318114_25 = makeNative(co->gc, 3, clofun22, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_args, v_op, v_2317946_25);
+Obj v_2318065_25 = makeNative(co->gc, 1, clofun21, 0, 4, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v_2318571_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318571_25) {
+Obj v_2318572_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_op = v_2318572_25;
+Obj v_2318573_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_args = v_2318573_25;
+Obj v_2318235_25 = makeNative(co->gc, 3, clofun22, 1, 6, closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), v_args, v_op, v_2318065_25);
 R[1] = v_op;
-R[2] = v_2318114_25;
+R[2] = v_2318235_25;
 saveCont(co, clofun23, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 110)), v_op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317946_25);
+coraCall0(co, v_2318065_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318473_25= co->res;
-Obj v_2318114_25 = R[1];
-if (True == v_2318473_25) {
+Obj v_2318594_25= co->res;
+Obj v_2318235_25 = R[1];
+if (True == v_2318594_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318114_25, True);
+coraCall1(co, v_2318235_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318114_25, False);
+coraCall1(co, v_2318235_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318472_25= co->res;
-Obj v_2318114_25 = R[1];
-R[1] = v_2318114_25;
+Obj v_2318593_25= co->res;
+Obj v_2318235_25 = R[1];
+R[1] = v_2318235_25;
 saveCont(co, clofun23, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318472_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318593_25);
 return;
 }
 case 3:
 {
-Obj v_2318471_25= co->res;
+Obj v_2318592_25= co->res;
 Obj v_op = R[1];
-Obj v_2318114_25 = R[2];
-if (True == v_2318471_25) {
-R[1] = v_2318114_25;
+Obj v_2318235_25 = R[2];
+if (True == v_2318592_25) {
+R[1] = v_2318235_25;
 saveCont(co, clofun23, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_op, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318114_25, False);
+coraCall1(co, v_2318235_25, False);
 return;
 }
 }
@@ -8500,8 +8500,8 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318115_25 = R[1];
-if (True == v_2318115_25) {
+Obj v_2318236_25 = R[1];
+if (True == v_2318236_25) {
 saveCont(co, clofun22, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), closureRef(R[0], 4));
 return;
@@ -8513,57 +8513,57 @@ return;
 }
 case 1:
 {
-Obj v_2318459_25= co->res;
-Obj v_2318457_25 = R[1];
-Obj v_2318460_25 = makeCons(co->gc, v_2318457_25, v_2318459_25);
-coraReturn(co, v_2318460_25);
+Obj v_2318580_25= co->res;
+Obj v_2318578_25 = R[1];
+Obj v_2318581_25 = makeCons(co->gc, v_2318578_25, v_2318580_25);
+coraReturn(co, v_2318581_25);
 return;
 }
 case 2:
 {
-Obj v_2318458_25= co->res;
-Obj v_2318457_25 = R[1];
-R[1] = v_2318457_25;
+Obj v_2318579_25= co->res;
+Obj v_2318578_25 = R[1];
+R[1] = v_2318578_25;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318458_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318579_25, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v_2318470_25= co->res;
+Obj v_2318591_25= co->res;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2318470_25);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), v_2318591_25);
 return;
 }
 case 4:
 {
-Obj v_2318466_25= co->res;
+Obj v_2318587_25= co->res;
 Obj v_tmp = R[1];
 Obj v_vars = R[2];
-Obj v_2318467_25 = makeCons(co->gc, v_2318466_25, Nil);
-Obj v_2318468_25 = makeCons(co->gc, v_tmp, v_2318467_25);
-Obj v_2318469_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318468_25);
+Obj v_2318588_25 = makeCons(co->gc, v_2318587_25, Nil);
+Obj v_2318589_25 = makeCons(co->gc, v_tmp, v_2318588_25);
+Obj v_2318590_25 = makeCons(co->gc, getBinding(co, packageID, 81).name, v_2318589_25);
 saveCont(co, clofun22, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 103)), v_vars, closureRef(R[0], 3), v_2318469_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 103)), v_vars, closureRef(R[0], 3), v_2318590_25);
 return;
 }
 case 5:
 {
-Obj v_2318464_25= co->res;
+Obj v_2318585_25= co->res;
 Obj v_tmp = R[1];
-Obj v_vars = v_2318464_25;
-Obj v_2318465_25 = makeCons(co->gc, closureRef(R[0], 4), v_vars);
+Obj v_vars = v_2318585_25;
+Obj v_2318586_25 = makeCons(co->gc, closureRef(R[0], 4), v_vars);
 R[1] = v_tmp;
 R[2] = v_vars;
 saveCont(co, clofun22, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2318465_25, v_tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v_2318586_25, v_tmp);
 return;
 }
 case 6:
 {
-Obj v_2318463_25= co->res;
+Obj v_2318584_25= co->res;
 Obj v_provided = R[1];
-Obj v_tmp = v_2318463_25;
+Obj v_tmp = v_2318584_25;
 R[1] = v_tmp;
 saveCont(co, clofun22, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_provided, Nil);
@@ -8571,24 +8571,24 @@ return;
 }
 case 7:
 {
-Obj v_2318454_25= co->res;
+Obj v_2318575_25= co->res;
 Obj v_required = R[1];
-Obj v_provided = v_2318454_25;
-Obj v_2318455_25 = PRIM_EQ(v_required, v_provided);
-if (True == v_2318455_25) {
-Obj v_2318456_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v_2318457_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2318456_25);
-R[1] = v_2318457_25;
+Obj v_provided = v_2318575_25;
+Obj v_2318576_25 = PRIM_EQ(v_required, v_provided);
+if (True == v_2318576_25) {
+Obj v_2318577_25 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v_2318578_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2318577_25);
+R[1] = v_2318578_25;
 saveCont(co, clofun22, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 84)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v_2318461_25 = PRIM_GT(v_required, v_provided);
-if (True == v_2318461_25) {
-Obj v_2318462_25 = PRIM_SUB(v_required, v_provided);
+Obj v_2318582_25 = PRIM_GT(v_required, v_provided);
+if (True == v_2318582_25) {
+Obj v_2318583_25 = PRIM_SUB(v_required, v_provided);
 R[1] = v_provided;
 saveCont(co, clofun22, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318462_25, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318583_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8599,8 +8599,8 @@ return;
 }
 case 8:
 {
-Obj v_2318453_25= co->res;
-Obj v_required = v_2318453_25;
+Obj v_2318574_25= co->res;
+Obj v_required = v_2318574_25;
 R[1] = v_required;
 saveCont(co, clofun22, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), closureRef(R[0], 3));
@@ -8619,9 +8619,9 @@ return;
 }
 case 1:
 {
-Obj v_2318449_25= co->res;
+Obj v_2318570_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318449_25, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_2318570_25, closureRef(R[0], 3));
 return;
 }
 }
@@ -8631,67 +8631,67 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317928_25 = R[1];
-Obj v_2317929_25 = R[2];
-Obj v_2318423_25 = primIsSymbol(v_2317928_25);
-if (True == v_2318423_25) {
-R[1] = v_2317928_25;
+Obj v_2318047_25 = R[1];
+Obj v_2318048_25 = R[2];
+Obj v_2318544_25 = primIsSymbol(v_2318047_25);
+if (True == v_2318544_25) {
+R[1] = v_2318047_25;
 saveCont(co, clofun20, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2317928_25, v_2317929_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_2318047_25, v_2318048_25);
 return;
 } else {
-Obj v_2318427_25 = PRIM_ISCONS(v_2317928_25);
-if (True == v_2318427_25) {
-Obj v_2318428_25 = PRIM_CAR(v_2317928_25);
-Obj v_x = v_2318428_25;
-Obj v_2318429_25 = PRIM_CDR(v_2317928_25);
-Obj v_y = v_2318429_25;
-Obj v_2318430_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, Nil);
-Obj v_2318431_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2318430_25);
+Obj v_2318548_25 = PRIM_ISCONS(v_2318047_25);
+if (True == v_2318548_25) {
+Obj v_2318549_25 = PRIM_CAR(v_2318047_25);
+Obj v_x = v_2318549_25;
+Obj v_2318550_25 = PRIM_CDR(v_2318047_25);
+Obj v_y = v_2318550_25;
+Obj v_2318551_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, Nil);
+Obj v_2318552_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, v_2318551_25);
 R[1] = v_y;
-R[2] = v_2317929_25;
-R[3] = v_2318431_25;
+R[2] = v_2318048_25;
+R[3] = v_2318552_25;
 saveCont(co, clofun20, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_x, v_2317929_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_x, v_2318048_25);
 return;
 } else {
-Obj v_2318437_25 = makeCons(co->gc, v_2317928_25, Nil);
-Obj v_2318438_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318437_25);
-coraReturn(co, v_2318438_25);
+Obj v_2318558_25 = makeCons(co->gc, v_2318047_25, Nil);
+Obj v_2318559_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318558_25);
+coraReturn(co, v_2318559_25);
 return;
 }
 }
 }
 case 1:
 {
-Obj v_2318424_25= co->res;
-Obj v_2317928_25 = R[1];
-Obj v_2318425_25 = makeCons(co->gc, v_2317928_25, Nil);
-Obj v_2318426_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318425_25);
-coraReturn(co, v_2318426_25);
+Obj v_2318545_25= co->res;
+Obj v_2318047_25 = R[1];
+Obj v_2318546_25 = makeCons(co->gc, v_2318047_25, Nil);
+Obj v_2318547_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318546_25);
+coraReturn(co, v_2318547_25);
 return;
 }
 case 2:
 {
-Obj v_2318433_25= co->res;
-Obj v_2318432_25 = R[1];
-Obj v_2318431_25 = R[2];
-Obj v_2318434_25 = makeCons(co->gc, v_2318433_25, Nil);
-Obj v_2318435_25 = makeCons(co->gc, v_2318432_25, v_2318434_25);
-Obj v_2318436_25 = makeCons(co->gc, v_2318431_25, v_2318435_25);
-coraReturn(co, v_2318436_25);
+Obj v_2318554_25= co->res;
+Obj v_2318553_25 = R[1];
+Obj v_2318552_25 = R[2];
+Obj v_2318555_25 = makeCons(co->gc, v_2318554_25, Nil);
+Obj v_2318556_25 = makeCons(co->gc, v_2318553_25, v_2318555_25);
+Obj v_2318557_25 = makeCons(co->gc, v_2318552_25, v_2318556_25);
+coraReturn(co, v_2318557_25);
 return;
 }
 case 3:
 {
-Obj v_2318432_25= co->res;
+Obj v_2318553_25= co->res;
 Obj v_y = R[1];
-Obj v_2317929_25 = R[2];
-Obj v_2318431_25 = R[3];
-R[1] = v_2318432_25;
-R[2] = v_2318431_25;
+Obj v_2318048_25 = R[2];
+Obj v_2318552_25 = R[3];
+R[1] = v_2318553_25;
+R[2] = v_2318552_25;
 saveCont(co, clofun20, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_y, v_2317929_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 86)), v_y, v_2318048_25);
 return;
 }
 }
@@ -8704,50 +8704,50 @@ case 0:
 Obj v_x = R[1];
 Obj v_env = R[2];
 Obj v_used = R[3];
-Obj v_2318098_25 = makeNative(co->gc, 2, clofun18, 1, 2, v_used, v_x);
+Obj v_2318219_25 = makeNative(co->gc, 2, clofun18, 1, 2, v_used, v_x);
 R[1] = v_x;
 R[2] = v_env;
-R[3] = v_2318098_25;
+R[3] = v_2318219_25;
 saveCont(co, clofun19, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 87)), v_used);
 return;
 }
 case 1:
 {
-Obj v_2318420_25= co->res;
-Obj v_2318098_25 = R[1];
-Obj v_2318421_25 = primNot(v_2318420_25);
-if (True == v_2318421_25) {
+Obj v_2318541_25= co->res;
+Obj v_2318219_25 = R[1];
+Obj v_2318542_25 = primNot(v_2318541_25);
+if (True == v_2318542_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318098_25, True);
+coraCall1(co, v_2318219_25, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v_2318098_25, False);
+coraCall1(co, v_2318219_25, False);
 return;
 }
 }
 case 2:
 {
-Obj v_2318419_25= co->res;
-Obj v_2318098_25 = R[1];
-R[1] = v_2318098_25;
+Obj v_2318540_25= co->res;
+Obj v_2318219_25 = R[1];
+R[1] = v_2318219_25;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318419_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318540_25);
 return;
 }
 case 3:
 {
-Obj v_2318418_25= co->res;
+Obj v_2318539_25= co->res;
 Obj v_x = R[1];
 Obj v_env = R[2];
-Obj v_2318098_25 = R[3];
-if (True == v_2318418_25) {
+Obj v_2318219_25 = R[3];
+if (True == v_2318539_25) {
 co->ctx.sp = R;
-coraCall1(co, v_2318098_25, True);
+coraCall1(co, v_2318219_25, True);
 return;
 } else {
-R[1] = v_2318098_25;
+R[1] = v_2318219_25;
 saveCont(co, clofun19, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), v_x, v_env);
 return;
@@ -8755,15 +8755,15 @@ return;
 }
 case 4:
 {
-Obj v_2318417_25= co->res;
+Obj v_2318538_25= co->res;
 Obj v_x = R[1];
 Obj v_env = R[2];
-Obj v_2318098_25 = R[3];
+Obj v_2318219_25 = R[3];
 R[1] = v_x;
 R[2] = v_env;
-R[3] = v_2318098_25;
+R[3] = v_2318219_25;
 saveCont(co, clofun19, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318417_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318538_25);
 return;
 }
 }
@@ -8773,10 +8773,10 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318099_25 = R[1];
-if (True == v_2318099_25) {
-Obj v_2318413_25 = primGenSym(co);
-coraReturn(co, v_2318413_25);
+Obj v_2318220_25 = R[1];
+if (True == v_2318220_25) {
+Obj v_2318534_25 = primGenSym(co);
+coraReturn(co, v_2318534_25);
 return;
 } else {
 saveCont(co, clofun18, 1, R);
@@ -8786,9 +8786,9 @@ return;
 }
 case 1:
 {
-Obj v_2318414_25= co->res;
-Obj v_2318415_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318414_25);
-Obj v_2318416_25 = primSet(co, closureRef(R[0], 0), v_2318415_25);
+Obj v_2318535_25= co->res;
+Obj v_2318536_25 = makeCons(co->gc, closureRef(R[0], 1), v_2318535_25);
+Obj v_2318537_25 = primSet(co, closureRef(R[0], 0), v_2318536_25);
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 1));
 return;
@@ -8800,24 +8800,24 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317923_25 = R[1];
-Obj v_2317924_25 = R[2];
-Obj v_2317925_25 = R[3];
-Obj v_2317926_25 = makeNative(co->gc, 1, clofun16, 0, 3, v_2317923_25, v_2317924_25, v_2317925_25);
-Obj v_2318410_25 = PRIM_EQ(Nil, v_2317923_25);
-if (True == v_2318410_25) {
-Obj v_2318411_25 = PRIM_EQ(Nil, v_2317924_25);
-if (True == v_2318411_25) {
-coraReturn(co, v_2317925_25);
+Obj v_2318042_25 = R[1];
+Obj v_2318043_25 = R[2];
+Obj v_2318044_25 = R[3];
+Obj v_2318045_25 = makeNative(co->gc, 1, clofun16, 0, 3, v_2318042_25, v_2318043_25, v_2318044_25);
+Obj v_2318531_25 = PRIM_EQ(Nil, v_2318042_25);
+if (True == v_2318531_25) {
+Obj v_2318532_25 = PRIM_EQ(Nil, v_2318043_25);
+if (True == v_2318532_25) {
+coraReturn(co, v_2318044_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317926_25);
+coraCall0(co, v_2318045_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317926_25);
+coraCall0(co, v_2318045_25);
 return;
 }
 }
@@ -8828,32 +8828,32 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317927_25 = makeNative(co->gc, 1, clofun15, 0, 0);
-Obj v_2318402_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318402_25) {
-Obj v_2318403_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318403_25;
-Obj v_2318404_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_xs = v_2318404_25;
-Obj v_2318405_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318405_25) {
-Obj v_2318406_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_y = v_2318406_25;
-Obj v_2318407_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_ys = v_2318407_25;
-Obj v_2318408_25 = makeCons(co->gc, v_x, v_y);
-Obj v_2318409_25 = makeCons(co->gc, v_2318408_25, closureRef(R[0], 2));
+Obj v_2318046_25 = makeNative(co->gc, 1, clofun15, 0, 0);
+Obj v_2318523_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318523_25) {
+Obj v_2318524_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318524_25;
+Obj v_2318525_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_xs = v_2318525_25;
+Obj v_2318526_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318526_25) {
+Obj v_2318527_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_y = v_2318527_25;
+Obj v_2318528_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_ys = v_2318528_25;
+Obj v_2318529_25 = makeCons(co->gc, v_x, v_y);
+Obj v_2318530_25 = makeCons(co->gc, v_2318529_25, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 89)), v_xs, v_ys, v_2318409_25);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 89)), v_xs, v_ys, v_2318530_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317927_25);
+coraCall0(co, v_2318046_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317927_25);
+coraCall0(co, v_2318046_25);
 return;
 }
 }
@@ -8876,28 +8876,28 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v_2318389_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, Nil);
-Obj v_2318390_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318389_25);
-Obj v_2318391_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318390_25);
-Obj v_2318392_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318391_25);
-Obj v_2318393_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318392_25);
-Obj v_2318394_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318393_25);
-Obj v_2318395_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318394_25);
-Obj v_2318396_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318395_25);
-Obj v_2318397_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318396_25);
-Obj v_2318398_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318397_25);
+Obj v_2318510_25 = makeCons(co->gc, getBinding(co, packageID, 90).name, Nil);
+Obj v_2318511_25 = makeCons(co->gc, getBinding(co, packageID, 91).name, v_2318510_25);
+Obj v_2318512_25 = makeCons(co->gc, getBinding(co, packageID, 92).name, v_2318511_25);
+Obj v_2318513_25 = makeCons(co->gc, getBinding(co, packageID, 93).name, v_2318512_25);
+Obj v_2318514_25 = makeCons(co->gc, getBinding(co, packageID, 94).name, v_2318513_25);
+Obj v_2318515_25 = makeCons(co->gc, getBinding(co, packageID, 95).name, v_2318514_25);
+Obj v_2318516_25 = makeCons(co->gc, getBinding(co, packageID, 96).name, v_2318515_25);
+Obj v_2318517_25 = makeCons(co->gc, getBinding(co, packageID, 97).name, v_2318516_25);
+Obj v_2318518_25 = makeCons(co->gc, getBinding(co, packageID, 98).name, v_2318517_25);
+Obj v_2318519_25 = makeCons(co->gc, getBinding(co, packageID, 99).name, v_2318518_25);
 R[1] = v_x;
 saveCont(co, clofun14, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318398_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v_x, v_2318519_25);
 return;
 }
 case 1:
 {
-Obj v_2318399_25= co->res;
+Obj v_2318520_25= co->res;
 Obj v_x = R[1];
-if (True == v_2318399_25) {
-Obj v_2318400_25 = primGenSym(co);
-coraReturn(co, v_2318400_25);
+if (True == v_2318520_25) {
+Obj v_2318521_25 = primGenSym(co);
+coraReturn(co, v_2318521_25);
 return;
 } else {
 coraReturn(co, v_x);
@@ -8911,24 +8911,24 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317918_25 = R[1];
-Obj v_2317919_25 = R[2];
-Obj v_2317920_25 = R[3];
-Obj v_2317921_25 = makeNative(co->gc, 3, clofun12, 0, 3, v_2317918_25, v_2317919_25, v_2317920_25);
-Obj v_2318386_25 = PRIM_EQ(Nil, v_2317918_25);
-if (True == v_2318386_25) {
-Obj v_2318387_25 = PRIM_EQ(Nil, v_2317919_25);
-if (True == v_2318387_25) {
-coraReturn(co, v_2317920_25);
+Obj v_2318037_25 = R[1];
+Obj v_2318038_25 = R[2];
+Obj v_2318039_25 = R[3];
+Obj v_2318040_25 = makeNative(co->gc, 3, clofun12, 0, 3, v_2318037_25, v_2318038_25, v_2318039_25);
+Obj v_2318507_25 = PRIM_EQ(Nil, v_2318037_25);
+if (True == v_2318507_25) {
+Obj v_2318508_25 = PRIM_EQ(Nil, v_2318038_25);
+if (True == v_2318508_25) {
+coraReturn(co, v_2318039_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317921_25);
+coraCall0(co, v_2318040_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317921_25);
+coraCall0(co, v_2318040_25);
 return;
 }
 }
@@ -8939,19 +8939,19 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317922_25 = makeNative(co->gc, 1, clofun11, 0, 0);
-Obj v_2318375_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318375_25) {
-Obj v_2318376_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_x = v_2318376_25;
-Obj v_2318377_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_xs = v_2318377_25;
-Obj v_2318378_25 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v_2318378_25) {
-Obj v_2318379_25 = PRIM_CAR(closureRef(R[0], 1));
-Obj v_y = v_2318379_25;
-Obj v_2318380_25 = PRIM_CDR(closureRef(R[0], 1));
-Obj v_ys = v_2318380_25;
+Obj v_2318041_25 = makeNative(co->gc, 1, clofun11, 0, 0);
+Obj v_2318496_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318496_25) {
+Obj v_2318497_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_x = v_2318497_25;
+Obj v_2318498_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_xs = v_2318498_25;
+Obj v_2318499_25 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v_2318499_25) {
+Obj v_2318500_25 = PRIM_CAR(closureRef(R[0], 1));
+Obj v_y = v_2318500_25;
+Obj v_2318501_25 = PRIM_CDR(closureRef(R[0], 1));
+Obj v_ys = v_2318501_25;
 R[1] = v_y;
 R[2] = v_x;
 saveCont(co, clofun12, 1, R);
@@ -8959,25 +8959,25 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 103)), v_xs, v_ys, closure
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317922_25);
+coraCall0(co, v_2318041_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317922_25);
+coraCall0(co, v_2318041_25);
 return;
 }
 }
 case 1:
 {
-Obj v_2318381_25= co->res;
+Obj v_2318502_25= co->res;
 Obj v_y = R[1];
 Obj v_x = R[2];
-Obj v_2318382_25 = makeCons(co->gc, v_2318381_25, Nil);
-Obj v_2318383_25 = makeCons(co->gc, v_y, v_2318382_25);
-Obj v_2318384_25 = makeCons(co->gc, v_x, v_2318383_25);
-Obj v_2318385_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318384_25);
-coraReturn(co, v_2318385_25);
+Obj v_2318503_25 = makeCons(co->gc, v_2318502_25, Nil);
+Obj v_2318504_25 = makeCons(co->gc, v_y, v_2318503_25);
+Obj v_2318505_25 = makeCons(co->gc, v_x, v_2318504_25);
+Obj v_2318506_25 = makeCons(co->gc, getBinding(co, packageID, 102).name, v_2318505_25);
+coraReturn(co, v_2318506_25);
 return;
 }
 }
@@ -8998,18 +8998,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317914_25 = R[1];
-Obj v_2317915_25 = R[2];
-Obj v_2318370_25 = PRIM_EQ(MAKE_NUMBER(0), v_2317914_25);
-if (True == v_2318370_25) {
-coraReturn(co, v_2317915_25);
+Obj v_2318033_25 = R[1];
+Obj v_2318034_25 = R[2];
+Obj v_2318491_25 = PRIM_EQ(MAKE_NUMBER(0), v_2318033_25);
+if (True == v_2318491_25) {
+coraReturn(co, v_2318034_25);
 return;
 } else {
-Obj v_2318371_25 = PRIM_SUB(v_2317914_25, MAKE_NUMBER(1));
-Obj v_2318372_25 = primGenSym(co);
-Obj v_2318373_25 = makeCons(co->gc, v_2318372_25, v_2317915_25);
+Obj v_2318492_25 = PRIM_SUB(v_2318033_25, MAKE_NUMBER(1));
+Obj v_2318493_25 = primGenSym(co);
+Obj v_2318494_25 = makeCons(co->gc, v_2318493_25, v_2318034_25);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318371_25, v_2318373_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318492_25, v_2318494_25);
 return;
 }
 }
@@ -9027,9 +9027,9 @@ return;
 }
 case 1:
 {
-Obj v_2318368_25= co->res;
+Obj v_2318489_25= co->res;
 Obj v_find = R[1];
-if (True == v_2318368_25) {
+if (True == v_2318489_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -9040,8 +9040,8 @@ return;
 }
 case 2:
 {
-Obj v_2318367_25= co->res;
-Obj v_find = v_2318367_25;
+Obj v_2318488_25= co->res;
+Obj v_find = v_2318488_25;
 R[1] = v_find;
 saveCont(co, clofun9, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_find);
@@ -9061,9 +9061,9 @@ return;
 }
 case 1:
 {
-Obj v_2318365_25= co->res;
+Obj v_2318486_25= co->res;
 Obj v_find = R[1];
-if (True == v_2318365_25) {
+if (True == v_2318486_25) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -9074,8 +9074,8 @@ return;
 }
 case 2:
 {
-Obj v_2318364_25= co->res;
-Obj v_find = v_2318364_25;
+Obj v_2318485_25= co->res;
+Obj v_find = v_2318485_25;
 R[1] = v_find;
 saveCont(co, clofun8, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_find);
@@ -9095,16 +9095,16 @@ return;
 }
 case 1:
 {
-Obj v_2318361_25= co->res;
-Obj v_2318362_25 = primNot(v_2318361_25);
-coraReturn(co, v_2318362_25);
+Obj v_2318482_25= co->res;
+Obj v_2318483_25 = primNot(v_2318482_25);
+coraReturn(co, v_2318483_25);
 return;
 }
 case 2:
 {
-Obj v_2318360_25= co->res;
+Obj v_2318481_25= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318360_25);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 109)), v_2318481_25);
 return;
 }
 }
@@ -9114,23 +9114,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317910_25 = R[1];
-Obj v_2317911_25 = R[2];
-Obj v_2318284_25 = PRIM_EQ(Nil, v_2317911_25);
-if (True == v_2318284_25) {
+Obj v_2318029_25 = R[1];
+Obj v_2318030_25 = R[2];
+Obj v_2318405_25 = PRIM_EQ(Nil, v_2318030_25);
+if (True == v_2318405_25) {
 coraReturn(co, False);
 return;
 } else {
-Obj v_2318285_25 = PRIM_ISCONS(v_2317911_25);
-if (True == v_2318285_25) {
-Obj v_2318286_25 = PRIM_CAR(v_2317911_25);
-Obj v_hd = v_2318286_25;
-Obj v_2318287_25 = PRIM_CDR(v_2317911_25);
-Obj v_tl = v_2318287_25;
-R[1] = v_2317910_25;
+Obj v_2318406_25 = PRIM_ISCONS(v_2318030_25);
+if (True == v_2318406_25) {
+Obj v_2318407_25 = PRIM_CAR(v_2318030_25);
+Obj v_hd = v_2318407_25;
+Obj v_2318408_25 = PRIM_CDR(v_2318030_25);
+Obj v_tl = v_2318408_25;
+R[1] = v_2318029_25;
 R[2] = v_tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2317910_25, v_hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2318029_25, v_hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -9141,13 +9141,13 @@ return;
 }
 case 1:
 {
-Obj v_2318288_25= co->res;
-Obj v_2317910_25 = R[1];
+Obj v_2318409_25= co->res;
+Obj v_2318029_25 = R[1];
 Obj v_tl = R[2];
-Obj v_2318289_25 = PRIM_LT(v_2318288_25, MAKE_NUMBER(0));
-if (True == v_2318289_25) {
+Obj v_2318410_25 = PRIM_LT(v_2318409_25, MAKE_NUMBER(0));
+if (True == v_2318410_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2317910_25, v_tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_2318029_25, v_tl);
 return;
 } else {
 coraReturn(co, True);
@@ -9174,32 +9174,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317904_25 = R[1];
-Obj v_2317905_25 = R[2];
-Obj v_2317906_25 = R[3];
-Obj v_2318273_25 = PRIM_EQ(Nil, v_2317906_25);
-if (True == v_2318273_25) {
+Obj v_2318023_25 = R[1];
+Obj v_2318024_25 = R[2];
+Obj v_2318025_25 = R[3];
+Obj v_2318394_25 = PRIM_EQ(Nil, v_2318025_25);
+if (True == v_2318394_25) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v_2317908_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2317906_25, v_2317904_25, v_2317905_25);
-Obj v_2318278_25 = PRIM_ISCONS(v_2317906_25);
-if (True == v_2318278_25) {
-Obj v_2318279_25 = PRIM_CAR(v_2317906_25);
-Obj v_a = v_2318279_25;
-Obj v_2318280_25 = PRIM_CDR(v_2317906_25);
-Obj v_2318281_25 = PRIM_EQ(v_2317905_25, v_a);
-if (True == v_2318281_25) {
-coraReturn(co, v_2317904_25);
+Obj v_2318027_25 = makeNative(co->gc, 1, clofun3, 0, 3, v_2318025_25, v_2318023_25, v_2318024_25);
+Obj v_2318399_25 = PRIM_ISCONS(v_2318025_25);
+if (True == v_2318399_25) {
+Obj v_2318400_25 = PRIM_CAR(v_2318025_25);
+Obj v_a = v_2318400_25;
+Obj v_2318401_25 = PRIM_CDR(v_2318025_25);
+Obj v_2318402_25 = PRIM_EQ(v_2318024_25, v_a);
+if (True == v_2318402_25) {
+coraReturn(co, v_2318023_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318027_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317908_25);
+coraCall0(co, v_2318027_25);
 return;
 }
 }
@@ -9211,14 +9211,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318274_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318274_25) {
-Obj v_2318275_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318276_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_b = v_2318276_25;
-Obj v_2318277_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v_2318395_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318395_25) {
+Obj v_2318396_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318397_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_b = v_2318397_25;
+Obj v_2318398_25 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2318277_25, closureRef(R[0], 2), v_b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2318398_25, closureRef(R[0], 2), v_b);
 return;
 } else {
 co->ctx.sp = R;
@@ -9233,24 +9233,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317899_25 = R[1];
-Obj v_2317900_25 = R[2];
-Obj v_2317901_25 = R[3];
-Obj v_2318267_25 = PRIM_EQ(Nil, v_2317901_25);
-if (True == v_2318267_25) {
-coraReturn(co, v_2317900_25);
+Obj v_2318018_25 = R[1];
+Obj v_2318019_25 = R[2];
+Obj v_2318020_25 = R[3];
+Obj v_2318388_25 = PRIM_EQ(Nil, v_2318020_25);
+if (True == v_2318388_25) {
+coraReturn(co, v_2318019_25);
 return;
 } else {
-Obj v_2318268_25 = PRIM_ISCONS(v_2317901_25);
-if (True == v_2318268_25) {
-Obj v_2318269_25 = PRIM_CAR(v_2317901_25);
-Obj v_x = v_2318269_25;
-Obj v_2318270_25 = PRIM_CDR(v_2317901_25);
-Obj v_y = v_2318270_25;
-R[1] = v_2317899_25;
+Obj v_2318389_25 = PRIM_ISCONS(v_2318020_25);
+if (True == v_2318389_25) {
+Obj v_2318390_25 = PRIM_CAR(v_2318020_25);
+Obj v_x = v_2318390_25;
+Obj v_2318391_25 = PRIM_CDR(v_2318020_25);
+Obj v_y = v_2318391_25;
+R[1] = v_2318018_25;
 R[2] = v_y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v_2317899_25, v_2317900_25, v_x);
+coraCall2(co, v_2318018_25, v_2318019_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
@@ -9261,11 +9261,11 @@ return;
 }
 case 1:
 {
-Obj v_2318271_25= co->res;
-Obj v_2317899_25 = R[1];
+Obj v_2318392_25= co->res;
+Obj v_2318018_25 = R[1];
 Obj v_y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), v_2317899_25, v_2318271_25, v_y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 132)), v_2318018_25, v_2318392_25, v_y);
 return;
 }
 }
@@ -9275,44 +9275,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2317894_25 = R[1];
-Obj v_2317895_25 = R[2];
-Obj v_2318252_25 = PRIM_EQ(Nil, v_2317895_25);
-if (True == v_2318252_25) {
+Obj v_2318013_25 = R[1];
+Obj v_2318014_25 = R[2];
+Obj v_2318373_25 = PRIM_EQ(Nil, v_2318014_25);
+if (True == v_2318373_25) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v_2317897_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2317895_25, v_2317894_25);
-Obj v_2318256_25 = PRIM_ISCONS(v_2317895_25);
-if (True == v_2318256_25) {
-Obj v_2318257_25 = PRIM_CAR(v_2317895_25);
-Obj v_2318258_25 = PRIM_ISCONS(v_2318257_25);
-if (True == v_2318258_25) {
-Obj v_2318259_25 = PRIM_CAR(v_2317895_25);
-Obj v_2318260_25 = PRIM_CAR(v_2318259_25);
-Obj v_x = v_2318260_25;
-Obj v_2318261_25 = PRIM_CAR(v_2317895_25);
-Obj v_2318262_25 = PRIM_CDR(v_2318261_25);
-Obj v_y = v_2318262_25;
-Obj v_2318263_25 = PRIM_CDR(v_2317895_25);
-Obj v_2318264_25 = PRIM_EQ(v_2317894_25, v_x);
-if (True == v_2318264_25) {
-Obj v_2318265_25 = makeCons(co->gc, v_x, v_y);
-coraReturn(co, v_2318265_25);
+Obj v_2318016_25 = makeNative(co->gc, 1, clofun0, 0, 2, v_2318014_25, v_2318013_25);
+Obj v_2318377_25 = PRIM_ISCONS(v_2318014_25);
+if (True == v_2318377_25) {
+Obj v_2318378_25 = PRIM_CAR(v_2318014_25);
+Obj v_2318379_25 = PRIM_ISCONS(v_2318378_25);
+if (True == v_2318379_25) {
+Obj v_2318380_25 = PRIM_CAR(v_2318014_25);
+Obj v_2318381_25 = PRIM_CAR(v_2318380_25);
+Obj v_x = v_2318381_25;
+Obj v_2318382_25 = PRIM_CAR(v_2318014_25);
+Obj v_2318383_25 = PRIM_CDR(v_2318382_25);
+Obj v_y = v_2318383_25;
+Obj v_2318384_25 = PRIM_CDR(v_2318014_25);
+Obj v_2318385_25 = PRIM_EQ(v_2318013_25, v_x);
+if (True == v_2318385_25) {
+Obj v_2318386_25 = makeCons(co->gc, v_x, v_y);
+coraReturn(co, v_2318386_25);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317897_25);
+coraCall0(co, v_2318016_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317897_25);
+coraCall0(co, v_2318016_25);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v_2317897_25);
+coraCall0(co, v_2318016_25);
 return;
 }
 }
@@ -9324,11 +9324,11 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_2318253_25 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v_2318253_25) {
-Obj v_2318254_25 = PRIM_CAR(closureRef(R[0], 0));
-Obj v_2318255_25 = PRIM_CDR(closureRef(R[0], 0));
-Obj v_y = v_2318255_25;
+Obj v_2318374_25 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v_2318374_25) {
+Obj v_2318375_25 = PRIM_CAR(closureRef(R[0], 0));
+Obj v_2318376_25 = PRIM_CDR(closureRef(R[0], 0));
+Obj v_y = v_2318376_25;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), closureRef(R[0], 1), v_y);
 return;
-- 
2.43.0


From cf34ceb61a8a95dfce68ac41324bb747aa3e039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 22/53] fix: a resumed continuation gives its frames to the
 stack, the collector does not follow them into freed segments

---
 src/runtime.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 9e365a4..94881c1 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -803,12 +803,21 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 	struct scmContinuation *cont = (struct scmContinuation *)ptr(contObj);
 	Frame *p = (Frame *)cont->data;
 	for (int i = 0; i < cont->len; i++) {
+		// The values move from the continuation to the stack, which has been
+		// marked already if a collection is running.
+		for (Obj *q = p[i].bp; q < p[i].sp; q++) {
+			writeBarrierForIncremental(co->gc, q, *q);
+		}
 		vecAppend(&co->callstack, p[i]);
 	}
 	Obj **stk = (Obj **)(cont->data + (sizeof(Frame) * cont->len));
 	for (int i = 0; i < cont->count; i++) {
 		vecAppend(&co->stk.data, stk[i]);
 	}
+	// The segments are freed when the stack unwinds, the continuation must not
+	// refer to them any more.
+	cont->len = 0;
+	cont->count = 0;
 	Obj *stack = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
 	co->stk.begin = stack;
 	co->stk.end = stack + INIT_STACK_SIZE;
-- 
2.43.0


From abecb2051c21074ecbec14ad9256f4c8bf6a4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 23/53] fix: the collector prints nothing to the output of the
 program

---
 src/gc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 2aab541..68b7e09 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -534,7 +534,6 @@ gcAllocLargeObject(GC *gc, int size) {
 		gc->large = ha->next;
 		if (gc->state == gcStateSweep && gc->progress.ha == ha) {
 			gc->progress.ha = gc->large;
-			printf("update gc progress in alloc large object\n");
 		}
 		// Link to heap list
 		struct heapArena *heapHead = gcGetHeapArena(gc);
@@ -596,7 +595,6 @@ gcAlloc(GC *gc, int size) {
 		// Update GC progress
 		if (gc->state == gcStateSweep && gc->progress.b == b) {
 			gc->progress.b = gc->sizeClass[slot];
-			printf("update gc progress in alloc object\n");
 		}
 	}
 
-- 
2.43.0


From e1d67cd35c9dead0604aa474e66b06d346991230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:27 +0000
Subject: [PATCH 24/53] fix: a script's first line is skipped whatever its
 length

---
 main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 29714e0..b751a0a 100644
--- a/main.c
+++ b/main.c
@@ -63,8 +63,8 @@ shebang(Cora* co, int argc, char* argv[]) {
 		if (line == NULL) {
 			exit(-1);
 		}
-		// The length of the first line is more than 255 bytes.
-		if (buf[254] != '\n') {
+		// The length of the first line may be more than 255 bytes.
+		if (strchr(buf, '\n') != NULL) {
 			break;
 		}
 	}
-- 
2.43.0


From 863909df9c7e63a17882c12511cd12f266b24b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 25/53] fix: appending a young object to an old vector is
 remembered by the collector

---
 src/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.c b/src/types.c
index 0ffd7b3..5e01e5e 100644
--- a/src/types.c
+++ b/src/types.c
@@ -328,6 +328,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 	}
 	v->data[v->size] = val;
 	v->size++;
+	writeBarrierForGeneration(gc, &v->head, val);
 	return makeNaNPtr(&v->head, TAG_PTR);
 }
 
-- 
2.43.0


From 9779dc055d1d51529fbc65c426bbdca1d9797502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 26/53] fix: the stack segments of a continuation nobody can
 resume are freed

---
 src/gc.c      | 21 +++++++++++++++++++++
 src/gc.h      |  6 ++++++
 src/runtime.c | 28 ++++++++++++++++++++++++++++
 src/runtime.h |  3 +++
 4 files changed, 58 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 68b7e09..7b51df9 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -231,6 +231,9 @@ struct GC {
 
 	// remember set for generationGC.
 	scmHeadEx *rset;
+
+	gcFlipCallback flip;
+	void *flipData;
 };
 
 static void
@@ -286,6 +289,8 @@ gcInit() {
 	gc->version =
 		2; // Start from 2, so uninitialized blocks can be treated as garbage
 	gc->rset = NULL;
+	gc->flip = NULL;
+	gc->flipData = NULL;
 	gc->freelist = NULL;
 
 	gc->gray.head = NULL;
@@ -864,9 +869,25 @@ gcVerifPoison(GC *gc) {
 }
 #endif
 
+void
+gcRegistFlip(GC *gc, gcFlipCallback callback, void *data) {
+	gc->flip = callback;
+	gc->flipData = data;
+}
+
+bool
+gcSurvive(GC *gc, void *head) {
+	scmHead *h = head;
+	return versionCmp((gc->version + 2) & VERSION_MASK,
+		       h->version & VERSION_MASK) <= 0;
+}
+
 static void
 gcFlip(GC *gc) {
 	TRACE_SCOPE("gcFlip");
+	if (gc->flip != NULL) {
+		gc->flip(gc, gc->flipData);
+	}
 	// Reset the current large list and sizeClass list.
 	for (struct heapArena *p = gc->large; p != NULL; p = p->next) {
 		p->curr = 0;
diff --git a/src/gc.h b/src/gc.h
index db28536..036358f 100644
--- a/src/gc.h
+++ b/src/gc.h
@@ -55,6 +55,12 @@ void gcRun(GC *gc);
 void writeBarrierForIncremental(struct GC *gc, uintptr_t *slot, uintptr_t val);
 void gcMark(struct GC *gc, uintptr_t head, version_t minv);
 
+// callback is run at the end of every marking, when gcSurvive tells which objects
+// are kept and the memory of the others is still untouched.
+typedef void (*gcFlipCallback)(struct GC *gc, void* data);
+void gcRegistFlip(GC *gc, gcFlipCallback callback, void* data);
+bool gcSurvive(GC *gc, void* head);
+
 typedef void (*gcFunc)(struct GC *gc, void* from);
 bool gcRegistForType(uint8_t type, gcFunc fn);
 
diff --git a/src/runtime.c b/src/runtime.c
index 94881c1..ec8a398 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -65,6 +65,7 @@ coraNew() {
 	co->ctx.bp = co->stk.begin;
 	co->ctx.sp = co->stk.begin;
 	vecInit(&co->trystack, 4);
+	vecInit(&co->conts, 4);
 	mapInit(&co->env, strHashFunc, strEQFunc);
 	return co;
 }
@@ -770,10 +771,36 @@ makeContinuation(Cora *co, Frame *callstack, int len, Obj **stk,
 	for (int i = 0; i < count; i++) {
 		q[i] = stk[i];
 	}
+	vecAppend(&co->conts, cont);
 
 	return makeNaNPtr(&cont->head, TAG_PTR);
 }
 
+// Free the stack segments of the continuations nobody can resume any more.
+static void
+continuationFlip(GC *gc, void *data) {
+	Cora *co = data;
+	int n = 0;
+	for (int i = 0; i < vecLen(&co->conts); i++) {
+		struct scmContinuation *cont = vecGet(&co->conts, i);
+		if (cont->count == 0) {
+			continue; // resumed, the segments belong to the stack again
+		}
+		if (gcSurvive(gc, cont)) {
+			vecSet(&co->conts, n, cont);
+			n++;
+			continue;
+		}
+		Obj **stk = (Obj **)(cont->data + (sizeof(Frame) * cont->len));
+		for (int j = 0; j < cont->count; j++) {
+			free(stk[j]);
+		}
+		cont->len = 0;
+		cont->count = 0;
+	}
+	co->conts.v.len = n;
+}
+
 static void
 continuationGCFunc(struct GC *gc, void *f) {
 	struct scmContinuation *from = f;
@@ -1099,6 +1126,7 @@ coraInit() {
 	Cora *co = coraNew();
 	co->gc = gcInit();
 	gcRegistForType(scmHeadContinuation, continuationGCFunc);
+	gcRegistFlip(co->gc, continuationFlip, co);
 	symQuote = intern("quote");
 	symBackQuote = intern("backquote");
 	symUnQuote = intern("unquote");
diff --git a/src/runtime.h b/src/runtime.h
index a963f65..f6f20bb 100644
--- a/src/runtime.h
+++ b/src/runtime.h
@@ -32,6 +32,7 @@ struct tryMark {
 };
 
 typedef struct Cora Cora;
+struct scmContinuation;
 
 typedef struct {
 	Obj name;
@@ -52,6 +53,8 @@ struct Cora {
 	// imported packages, each package is an array Binding[]
 	vector(Binding*) pkgs;
 	vector(struct tryMark) trystack;
+	// continuations that still own stack segments
+	vector(struct scmContinuation*) conts;
 	GC *gc;
 };
 
-- 
2.43.0


From 71c11f8324100f360eb525d326f48ad253fcda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 27/53] fix: a call from C gives its frame back to the stack

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index ec8a398..572734f 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -78,7 +78,7 @@ coraRun(Cora *co) {
 		.fn = NULL,
 		.label = 0,
 		.bp = co->ctx.bp,
-		.sp = co->ctx.sp,
+		.sp = co->ctx.bp, // the frame of the call is free once it has returned
 	};
 	vecAppend(&co->callstack, exit);
 
-- 
2.43.0


From 72374f084e607b66960bc84955b77e6873a6e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 28/53] fix: the reader and the printer handle lists of any
 length, strings are printed as they are read

---
 src/reader.c | 77 +++++++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index eaa4e77..851bbfc 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -53,27 +53,6 @@ peekFirstChar(FILE *in) {
 	return getc(in);
 }
 
-static Obj
-readCons(GC *gc, FILE *in, int *errCode) {
-	int c = peekFirstChar(in);
-	if (c == ')') {
-		// read the empty list
-		return Nil;
-	}
-	if (c == EOF) {
-		// the list is not terminated
-		*errCode = 1;
-		return Nil;
-	}
-
-	ungetc(c, in);
-	Obj hd = sexpRead(gc, in, errCode);
-
-	/* read list */
-	Obj tl = readCons(gc, in, errCode);
-	return makeCons(gc, hd, tl);
-}
-
 Obj
 reverse(GC *gc, Obj o) {
 	Obj ret = Nil;
@@ -84,6 +63,23 @@ reverse(GC *gc, Obj o) {
 	return ret;
 }
 
+static Obj
+readCons(GC *gc, FILE *in, int *errCode) {
+	Obj ret = Nil;
+	int c = peekFirstChar(in);
+	while (c != EOF && c != ')') {
+		ungetc(c, in);
+		Obj o = sexpRead(gc, in, errCode);
+		ret = makeCons(gc, o, ret);
+		c = peekFirstChar(in);
+	}
+	if (c == EOF) {
+		// the list is not terminated
+		*errCode = 1;
+	}
+	return reverse(gc, ret);
+}
+
 static Obj
 readListMacro(GC *gc, FILE *in, int *errCode) {
 	Obj hd = intern("list");
@@ -226,25 +222,32 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 }
 
 static void
-printCons(FILE *to, Obj o, bool start) {
-	if (start) {
-		fprintf(to, "(");
-		printObj(to, car(o));
-	} else {
+printCons(FILE *to, Obj o) {
+	fprintf(to, "(");
+	printObj(to, car(o));
+	Obj tl = cdr(o);
+	for (; iscons(tl); tl = cdr(tl)) {
 		fprintf(to, " ");
-		printObj(to, car(o));
+		printObj(to, car(tl));
 	}
-
-	Obj tl = cdr(o);
-	if (tl == Nil) {
-		fprintf(to, ")");
-	} else if (iscons(tl)) {
-		printCons(to, tl, false);
-	} else {
+	if (tl != Nil) {
 		fprintf(to, " . ");
 		printObj(to, tl);
-		fprintf(to, ")");
 	}
+	fprintf(to, ")");
+}
+
+// The string in the notation the reader accepts.
+static void
+printBytes(FILE *to, str s) {
+	fputc('"', to);
+	for (int i = 0; i < s.len; i++) {
+		if (s.str[i] == '"' || s.str[i] == '\\') {
+			fputc('\\', to);
+		}
+		fputc(s.str[i], to);
+	}
+	fputc('"', to);
 }
 
 void
@@ -254,7 +257,7 @@ printObj(FILE *to, Obj o) {
 	} else if (iscobj(o)) {
 		fprintf(to, "cobj");
 	} else if (iscons(o)) {
-		printCons(to, o, true);
+		printCons(to, o);
 	} else if (issymbol(o)) {
 		if (tag(o) == TAG_SYMBOL) {
 			fprintf(to, "%s", toCStr(ptr(o)));
@@ -281,7 +284,7 @@ printObj(FILE *to, Obj o) {
 			fprintf(to, "vector");
 			break;
 		case scmHeadBytes:
-			fprintf(to, "\"%s\"", stringStr(o).str);
+			printBytes(to, stringStr(o));
 			break;
 		case scmHeadNative:
 			fprintf(to, "native");
-- 
2.43.0


From 0c2833f642dbdb74a2544636f7322061bafe1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 29/53] fix: string literals with NUL characters are compiled
 in full

---
 init.c             |  66 +++++------
 lib/toc.c          | 282 ++++++++++++++++++++++-----------------------
 lib/toc.cora       |   2 +-
 lib/toc/internal.c |   2 +-
 src/types.h        |   2 +
 5 files changed, 178 insertions(+), 176 deletions(-)

diff --git a/init.c b/init.c
index a3fdaf2..5f69500 100644
--- a/init.c
+++ b/init.c
@@ -302,55 +302,55 @@ case 1:
 Obj v_2314304_25= co->res;
 Obj v_2314310_25 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun86, 2, 0));
 Obj v_2314322_25 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun87, 3, 0));
-Obj v_2314323_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2314323_25 = makeCons(co->gc, makeStringLit(co->gc, "primSet"), Nil);
 Obj v_2314324_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314323_25);
 Obj v_2314325_25 = makeCons(co->gc, getBinding(co, packageID, 68).name, v_2314324_25);
-Obj v_2314326_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2314326_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_CAR"), Nil);
 Obj v_2314327_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314326_25);
 Obj v_2314328_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2314327_25);
-Obj v_2314329_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2314329_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_CDR"), Nil);
 Obj v_2314330_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314329_25);
 Obj v_2314331_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2314330_25);
-Obj v_2314332_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2314332_25 = makeCons(co->gc, makeStringLit(co->gc, "makeCons"), Nil);
 Obj v_2314333_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314332_25);
 Obj v_2314334_25 = makeCons(co->gc, getBinding(co, packageID, 153).name, v_2314333_25);
-Obj v_2314335_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2314335_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_ISCONS"), Nil);
 Obj v_2314336_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314335_25);
 Obj v_2314337_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2314336_25);
-Obj v_2314338_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2314338_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_ADD"), Nil);
 Obj v_2314339_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314338_25);
 Obj v_2314340_25 = makeCons(co->gc, getBinding(co, packageID, 67).name, v_2314339_25);
-Obj v_2314341_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2314341_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_SUB"), Nil);
 Obj v_2314342_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314341_25);
 Obj v_2314343_25 = makeCons(co->gc, getBinding(co, packageID, 66).name, v_2314342_25);
-Obj v_2314344_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2314344_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_MUL"), Nil);
 Obj v_2314345_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314344_25);
 Obj v_2314346_25 = makeCons(co->gc, getBinding(co, packageID, 65).name, v_2314345_25);
-Obj v_2314347_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2314347_25 = makeCons(co->gc, makeStringLit(co->gc, "primDiv"), Nil);
 Obj v_2314348_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314347_25);
 Obj v_2314349_25 = makeCons(co->gc, getBinding(co, packageID, 64).name, v_2314348_25);
-Obj v_2314350_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2314350_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_EQ"), Nil);
 Obj v_2314351_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314350_25);
 Obj v_2314352_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2314351_25);
-Obj v_2314353_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2314353_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_GT"), Nil);
 Obj v_2314354_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314353_25);
 Obj v_2314355_25 = makeCons(co->gc, getBinding(co, packageID, 63).name, v_2314354_25);
-Obj v_2314356_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2314356_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_LT"), Nil);
 Obj v_2314357_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2314356_25);
 Obj v_2314358_25 = makeCons(co->gc, getBinding(co, packageID, 62).name, v_2314357_25);
-Obj v_2314359_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2314359_25 = makeCons(co->gc, makeStringLit(co->gc, "primGenSym"), Nil);
 Obj v_2314360_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2314359_25);
 Obj v_2314361_25 = makeCons(co->gc, getBinding(co, packageID, 61).name, v_2314360_25);
-Obj v_2314362_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2314362_25 = makeCons(co->gc, makeStringLit(co->gc, "primIsSymbol"), Nil);
 Obj v_2314363_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314362_25);
 Obj v_2314364_25 = makeCons(co->gc, getBinding(co, packageID, 60).name, v_2314363_25);
-Obj v_2314365_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2314365_25 = makeCons(co->gc, makeStringLit(co->gc, "primNot"), Nil);
 Obj v_2314366_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314365_25);
 Obj v_2314367_25 = makeCons(co->gc, getBinding(co, packageID, 59).name, v_2314366_25);
-Obj v_2314368_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2314368_25 = makeCons(co->gc, makeStringLit(co->gc, "primIsNumber"), Nil);
 Obj v_2314369_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314368_25);
 Obj v_2314370_25 = makeCons(co->gc, getBinding(co, packageID, 58).name, v_2314369_25);
-Obj v_2314371_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2314371_25 = makeCons(co->gc, makeStringLit(co->gc, "primIsString"), Nil);
 Obj v_2314372_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2314371_25);
 Obj v_2314373_25 = makeCons(co->gc, getBinding(co, packageID, 57).name, v_2314372_25);
 Obj v_2314374_25 = makeCons(co->gc, v_2314373_25, Nil);
@@ -1415,7 +1415,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -1446,11 +1446,11 @@ R[2] = v_2313630_25;
 R[3] = v_2313631_25;
 R[4] = v_more;
 saveCont(co, clofun87, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_import, makeStringLit(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -1476,7 +1476,7 @@ Obj v_2314319_25= co->res;
 Obj v_import = R[1];
 R[1] = v_import;
 saveCont(co, clofun87, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314319_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeStringLit(co->gc, "#"), v_2314319_25);
 return;
 }
 case 4:
@@ -1552,7 +1552,7 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v_2314305_25 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+Obj v_2314305_25 = PRIM_EQ(v_ns, makeStringLit(co->gc, ""));
 if (True == v_2314305_25) {
 coraReturn(co, v_var);
 return;
@@ -1585,7 +1585,7 @@ Obj v_2314307_25= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v_2314307_25);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeStringLit(co->gc, "#"), v_2314307_25);
 return;
 }
 case 4:
@@ -1653,7 +1653,7 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v_2314288_25 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v_2314288_25 = makeCons(co->gc, makeStringLit(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
 R[3] = v_2314288_25;
@@ -2148,7 +2148,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v_y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2208,7 +2208,7 @@ case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v_exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeStringLit(co->gc, ""), Nil, v_exp);
 return;
 }
 }
@@ -2352,7 +2352,7 @@ Obj v_n = R[1];
 Obj v_2314165_25 = primNot(v_2314164_25);
 if (True == v_2314165_25) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "inconsistent func rule args count"));
 return;
 } else {
 coraReturn(co, v_n);
@@ -2772,7 +2772,7 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_y, v_2314082_25,
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -3100,7 +3100,7 @@ Obj v_2314029_25= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
 if (True == v_2314029_25) {
-Obj v_2314030_25 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v_2314030_25 = makeCons(co->gc, makeStringLit(co->gc, "no match-help found!"), Nil);
 Obj v_2314031_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2314030_25);
 coraReturn(co, v_2314031_25);
 return;
@@ -3133,7 +3133,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "no cond match"));
 return;
 }
 }
@@ -3323,13 +3323,13 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v_pat, v_expr, v_bo
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeStringLit(co->gc, "no cond match"));
 return;
 }
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v_pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeStringLit(co->gc, "match fail "), v_pat);
 return;
 }
 }
@@ -3739,7 +3739,7 @@ Obj v_exp = R[1];
 Obj v_2313906_25 = PRIM_CDR(v_exp);
 Obj v_2313907_25 = PRIM_EQ(Nil, v_2313906_25);
 if (True == v_2313907_25) {
-Obj v_2313908_25 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v_2313908_25 = makeCons(co->gc, makeStringLit(co->gc, "no cond match"), Nil);
 Obj v_2313909_25 = makeCons(co->gc, getBinding(co, packageID, 128).name, v_2313908_25);
 coraReturn(co, v_2313909_25);
 return;
diff --git a/lib/toc.c b/lib/toc.c
index ae0d8b5..0e2d607 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -311,7 +311,7 @@ static void clofun155(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun155, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/toc/internal"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeStringLit(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
@@ -342,55 +342,55 @@ Obj v_2318393_25 = primSet(co, getBinding(co, packageID, 132).name, makeNative(c
 Obj v_2318403_25 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 4, clofun4, 3, 0));
 Obj v_2318404_25 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun5, 2, 0));
 Obj v_2318411_25 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v_2318412_25 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v_2318412_25 = makeCons(co->gc, makeStringLit(co->gc, "primSet"), Nil);
 Obj v_2318413_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318412_25);
 Obj v_2318414_25 = makeCons(co->gc, getBinding(co, packageID, 127).name, v_2318413_25);
-Obj v_2318415_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v_2318415_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_CAR"), Nil);
 Obj v_2318416_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318415_25);
 Obj v_2318417_25 = makeCons(co->gc, getBinding(co, packageID, 126).name, v_2318416_25);
-Obj v_2318418_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v_2318418_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_CDR"), Nil);
 Obj v_2318419_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318418_25);
 Obj v_2318420_25 = makeCons(co->gc, getBinding(co, packageID, 125).name, v_2318419_25);
-Obj v_2318421_25 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v_2318421_25 = makeCons(co->gc, makeStringLit(co->gc, "makeCons"), Nil);
 Obj v_2318422_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318421_25);
 Obj v_2318423_25 = makeCons(co->gc, getBinding(co, packageID, 124).name, v_2318422_25);
-Obj v_2318424_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v_2318424_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_ISCONS"), Nil);
 Obj v_2318425_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318424_25);
 Obj v_2318426_25 = makeCons(co->gc, getBinding(co, packageID, 123).name, v_2318425_25);
-Obj v_2318427_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v_2318427_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_ADD"), Nil);
 Obj v_2318428_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318427_25);
 Obj v_2318429_25 = makeCons(co->gc, getBinding(co, packageID, 122).name, v_2318428_25);
-Obj v_2318430_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v_2318430_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_SUB"), Nil);
 Obj v_2318431_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318430_25);
 Obj v_2318432_25 = makeCons(co->gc, getBinding(co, packageID, 121).name, v_2318431_25);
-Obj v_2318433_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v_2318433_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_MUL"), Nil);
 Obj v_2318434_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318433_25);
 Obj v_2318435_25 = makeCons(co->gc, getBinding(co, packageID, 120).name, v_2318434_25);
-Obj v_2318436_25 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v_2318436_25 = makeCons(co->gc, makeStringLit(co->gc, "primDiv"), Nil);
 Obj v_2318437_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318436_25);
 Obj v_2318438_25 = makeCons(co->gc, getBinding(co, packageID, 119).name, v_2318437_25);
-Obj v_2318439_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v_2318439_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_EQ"), Nil);
 Obj v_2318440_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318439_25);
 Obj v_2318441_25 = makeCons(co->gc, getBinding(co, packageID, 118).name, v_2318440_25);
-Obj v_2318442_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v_2318442_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_GT"), Nil);
 Obj v_2318443_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318442_25);
 Obj v_2318444_25 = makeCons(co->gc, getBinding(co, packageID, 117).name, v_2318443_25);
-Obj v_2318445_25 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v_2318445_25 = makeCons(co->gc, makeStringLit(co->gc, "PRIM_LT"), Nil);
 Obj v_2318446_25 = makeCons(co->gc, MAKE_NUMBER(2), v_2318445_25);
 Obj v_2318447_25 = makeCons(co->gc, getBinding(co, packageID, 116).name, v_2318446_25);
-Obj v_2318448_25 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v_2318448_25 = makeCons(co->gc, makeStringLit(co->gc, "primGenSym"), Nil);
 Obj v_2318449_25 = makeCons(co->gc, MAKE_NUMBER(0), v_2318448_25);
 Obj v_2318450_25 = makeCons(co->gc, getBinding(co, packageID, 115).name, v_2318449_25);
-Obj v_2318451_25 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v_2318451_25 = makeCons(co->gc, makeStringLit(co->gc, "primIsSymbol"), Nil);
 Obj v_2318452_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318451_25);
 Obj v_2318453_25 = makeCons(co->gc, getBinding(co, packageID, 114).name, v_2318452_25);
-Obj v_2318454_25 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v_2318454_25 = makeCons(co->gc, makeStringLit(co->gc, "primNot"), Nil);
 Obj v_2318455_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318454_25);
 Obj v_2318456_25 = makeCons(co->gc, getBinding(co, packageID, 113).name, v_2318455_25);
-Obj v_2318457_25 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v_2318457_25 = makeCons(co->gc, makeStringLit(co->gc, "primIsNumber"), Nil);
 Obj v_2318458_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318457_25);
 Obj v_2318459_25 = makeCons(co->gc, getBinding(co, packageID, 112).name, v_2318458_25);
-Obj v_2318460_25 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v_2318460_25 = makeCons(co->gc, makeStringLit(co->gc, "primIsString"), Nil);
 Obj v_2318461_25 = makeCons(co->gc, MAKE_NUMBER(1), v_2318460_25);
 Obj v_2318462_25 = makeCons(co->gc, getBinding(co, packageID, 111).name, v_2318461_25);
 Obj v_2318463_25 = makeCons(co->gc, v_2318462_25, Nil);
@@ -461,14 +461,14 @@ case 3:
 {
 Obj v_2318370_25= co->res;
 saveCont(co, clofun155, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/hash-h"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeStringLit(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
 Obj v_2318369_25= co->res;
 saveCont(co, clofun155, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeCString(co->gc, "cora/lib/io"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 136)), makeStringLit(co->gc, "cora/lib/io"));
 return;
 }
 }
@@ -1219,7 +1219,7 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_more, v_2319954_25
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -1427,7 +1427,7 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun129, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
@@ -1507,7 +1507,7 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun129, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "\n\n"));
 return;
 }
 case 7:
@@ -1533,7 +1533,7 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun129, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
@@ -1546,7 +1546,7 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun129, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1578,7 +1578,7 @@ case 1:
 {
 Obj v_2319890_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeStringLit(co->gc, ";\n"));
 return;
 }
 }
@@ -1597,7 +1597,7 @@ R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun126, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
@@ -1605,7 +1605,7 @@ case 1:
 Obj v_2319884_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
@@ -1614,7 +1614,7 @@ Obj v_2319883_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun126, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, ";\n"));
 return;
 }
 case 3:
@@ -1635,7 +1635,7 @@ Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
 saveCont(co, clofun126, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
@@ -1646,7 +1646,7 @@ Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
 saveCont(co, clofun126, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, ");\n"));
 return;
 }
 case 6:
@@ -1671,7 +1671,7 @@ R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
 saveCont(co, clofun126, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "stackAlloc(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "stackAlloc(co, "));
 return;
 }
 case 8:
@@ -1684,7 +1684,7 @@ R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
 saveCont(co, clofun126, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 9:
@@ -1713,7 +1713,7 @@ R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun126, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, ");\n"));
 return;
 }
 case 11:
@@ -1758,7 +1758,7 @@ R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun126, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 14:
@@ -1773,7 +1773,7 @@ R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun126, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1788,7 +1788,7 @@ Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
 saveCont(co, clofun125, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeStringLit(co->gc, "__symbolTable["));
 return;
 }
 case 1:
@@ -1805,7 +1805,7 @@ Obj v_2319874_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun125, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeStringLit(co->gc, "\"));\n"));
 return;
 }
 case 3:
@@ -1844,7 +1844,7 @@ Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
 saveCont(co, clofun125, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeStringLit(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
@@ -1882,7 +1882,7 @@ case 1:
 Obj v_2319861_25= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "}\n\n"));
 return;
 }
 case 2:
@@ -1891,7 +1891,7 @@ Obj v_2319860_25= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun124, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "}\n"));
 return;
 }
 case 3:
@@ -1933,7 +1933,7 @@ R[2] = v_label;
 R[3] = v_lam;
 R[4] = v_to;
 saveCont(co, clofun124, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "}\n"));
 return;
 }
 case 6:
@@ -1990,7 +1990,7 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun124, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
@@ -2009,7 +2009,7 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun124, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
@@ -2028,7 +2028,7 @@ R[4] = v_label;
 R[5] = v_lam;
 R[6] = v_to;
 saveCont(co, clofun124, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeStringLit(co->gc, " {\n"));
 return;
 }
 case 11:
@@ -2094,7 +2094,7 @@ Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
 saveCont(co, clofun123, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "case "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "case "));
 return;
 }
 case 1:
@@ -2111,7 +2111,7 @@ Obj v_2319856_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun123, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "}\n"));
 return;
 }
 case 3:
@@ -2144,7 +2144,7 @@ Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
 saveCont(co, clofun123, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, ":\n{\n"));
 return;
 }
 case 6:
@@ -2185,7 +2185,7 @@ coraCall1(co, v_2318170_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2308,7 +2308,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), v_2319824_25, v_more
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2450,7 +2450,7 @@ Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
 saveCont(co, clofun113, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeStringLit(co->gc, "static void "));
 return;
 }
 case 1:
@@ -2458,7 +2458,7 @@ case 1:
 Obj v_2319804_25= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeStringLit(co->gc, ")"));
 return;
 }
 case 2:
@@ -2467,7 +2467,7 @@ Obj v_2319803_25= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
 saveCont(co, clofun113, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeStringLit(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
@@ -2492,7 +2492,7 @@ Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
 saveCont(co, clofun112, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeStringLit(co->gc, "clofun"));
 return;
 }
 case 1:
@@ -2548,7 +2548,7 @@ R[5] = v_2318162_25;
 R[6] = v_2318163_25;
 R[7] = v_body;
 saveCont(co, clofun111, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318163_25, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318163_25, makeStringLit(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
@@ -2619,7 +2619,7 @@ R[4] = v_2318162_25;
 R[5] = v_2318163_25;
 R[6] = v_body;
 saveCont(co, clofun111, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318163_25, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_2318163_25, makeStringLit(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
@@ -2651,7 +2651,7 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2708,7 +2708,7 @@ coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2746,7 +2746,7 @@ Obj v_2319771_25 = primNot(v_2319770_25);
 if (True == v_2319771_25) {
 R[1] = v_b;
 saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, ", "));
 return;
 } else {
 Nil;
@@ -2828,7 +2828,7 @@ Obj v_2319757_25 = PRIM_EQ(Nil, v_2319756_25);
 if (True == v_2319757_25) {
 R[1] = v_x;
 saveCont(co, clofun106, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
@@ -2856,7 +2856,7 @@ case 1:
 {
 Obj v_2319760_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "))"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "))"));
 return;
 }
 case 2:
@@ -2899,7 +2899,7 @@ Obj v_2319745_25 = PRIM_EQ(Nil, v_2319744_25);
 if (True == v_2319745_25) {
 R[1] = v_idx;
 saveCont(co, clofun105, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
@@ -2926,7 +2926,7 @@ case 1:
 {
 Obj v_2319747_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 2:
@@ -2964,7 +2964,7 @@ Obj v_2319722_25 = primIsSymbol(v_x);
 if (True == v_2319722_25) {
 R[1] = v_x;
 saveCont(co, clofun104, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = v_x;
@@ -2997,7 +2997,7 @@ case 1:
 {
 Obj v_2319725_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ").name"));
 return;
 }
 case 2:
@@ -3019,7 +3019,7 @@ case 4:
 {
 Obj v_2319728_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 5:
@@ -3034,7 +3034,7 @@ case 6:
 {
 Obj v_2319732_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "\")"));
 return;
 }
 case 7:
@@ -3059,36 +3059,36 @@ Obj v_x = R[1];
 if (True == v_2319726_25) {
 R[1] = v_x;
 saveCont(co, clofun104, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "MAKE_NUMBER("));
 return;
 } else {
 Obj v_2319729_25 = primIsString(v_x);
 if (True == v_2319729_25) {
 R[1] = v_x;
 saveCont(co, clofun104, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "makeStringLit(co->gc, \""));
 return;
 } else {
 Obj v_2319733_25 = PRIM_EQ(v_x, Nil);
 if (True == v_2319733_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "Nil"));
 return;
 } else {
 Obj v_2319734_25 = PRIM_EQ(v_x, True);
 if (True == v_2319734_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "True"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "True"));
 return;
 } else {
 Obj v_2319735_25 = PRIM_EQ(v_x, False);
 if (True == v_2319735_25) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "False"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no cond match"));
 return;
 }
 }
@@ -3205,7 +3205,7 @@ Obj v_c = R[2];
 R[1] = v_a;
 R[2] = v_c;
 saveCont(co, clofun103, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, ";\n"));
 return;
 }
 case 4:
@@ -3243,7 +3243,7 @@ R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun103, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, " = "));
 return;
 }
 case 7:
@@ -3269,7 +3269,7 @@ R[1] = v_b;
 R[2] = v_a;
 R[3] = v_c;
 saveCont(co, clofun103, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "Obj "));
 return;
 }
 }
@@ -3339,7 +3339,7 @@ case 1:
 {
 Obj v_2319668_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 2:
@@ -3355,7 +3355,7 @@ case 3:
 {
 Obj v_2319671_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 4:
@@ -3371,7 +3371,7 @@ case 5:
 {
 Obj v_2319674_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 6:
@@ -3387,7 +3387,7 @@ case 7:
 {
 Obj v_2319676_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 8:
@@ -3408,26 +3408,26 @@ Obj v_2319666_25 = PRIM_EQ(v_f, getBinding(co, packageID, 127).name);
 if (True == v_2319666_25) {
 R[1] = v_args;
 saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "(co, "));
 return;
 } else {
 Obj v_2319669_25 = PRIM_EQ(v_f, getBinding(co, packageID, 115).name);
 if (True == v_2319669_25) {
 R[1] = v_args;
 saveCont(co, clofun102, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "(co"));
 return;
 } else {
 Obj v_2319672_25 = PRIM_EQ(v_f, getBinding(co, packageID, 124).name);
 if (True == v_2319672_25) {
 R[1] = v_args;
 saveCont(co, clofun102, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = v_args;
 saveCont(co, clofun102, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "("));
 return;
 }
 }
@@ -3491,7 +3491,7 @@ R[1] = v_a;
 R[2] = v_b;
 R[3] = v_c;
 saveCont(co, clofun101, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
@@ -3528,7 +3528,7 @@ case 1:
 {
 Obj v_2319646_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "}\n"));
 return;
 }
 case 2:
@@ -3554,7 +3554,7 @@ Obj v_2319643_25= co->res;
 Obj v_c = R[1];
 R[1] = v_c;
 saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "} else {\n"));
 return;
 }
 case 5:
@@ -3586,7 +3586,7 @@ Obj v_c = R[2];
 R[1] = v_b;
 R[2] = v_c;
 saveCont(co, clofun101, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ") {\n"));
 return;
 }
 case 8:
@@ -3661,7 +3661,7 @@ R[2] = v_label;
 R[3] = v_nargs;
 R[4] = v_frees;
 saveCont(co, clofun100, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
@@ -3693,7 +3693,7 @@ case 1:
 {
 Obj v_2319611_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 case 2:
@@ -3713,12 +3713,12 @@ Obj v_2319609_25 = primNot(v_2319608_25);
 if (True == v_2319609_25) {
 R[1] = v_frees;
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ")"));
 return;
 }
 }
@@ -3755,7 +3755,7 @@ Obj v_2319604_25= co->res;
 Obj v_frees = R[1];
 R[1] = v_frees;
 saveCont(co, clofun100, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 }
 case 8:
@@ -3776,7 +3776,7 @@ Obj v_frees = R[2];
 R[1] = v_nargs;
 R[2] = v_frees;
 saveCont(co, clofun100, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 }
 case 10:
@@ -3801,7 +3801,7 @@ R[1] = v_label;
 R[2] = v_nargs;
 R[3] = v_frees;
 saveCont(co, clofun100, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 }
 case 12:
@@ -3904,7 +3904,7 @@ Obj v_2319571_25= co->res;
 Obj v_b = R[1];
 R[1] = v_b;
 saveCont(co, clofun99, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, ";\n"));
 return;
 }
 case 4:
@@ -3942,7 +3942,7 @@ Obj v_2319548_25 = PRIM_EQ(Nil, v_2319547_25);
 if (True == v_2319548_25) {
 R[1] = v_x;
 saveCont(co, clofun98, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
@@ -3969,14 +3969,14 @@ case 1:
 {
 Obj v_2319552_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
 Obj v_2319551_25= co->res;
 saveCont(co, clofun98, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ");\n"));
 return;
 }
 case 3:
@@ -4021,7 +4021,7 @@ Obj v_2319535_25 = PRIM_EQ(Nil, v_2319534_25);
 if (True == v_2319535_25) {
 R[1] = v_exp;
 saveCont(co, clofun97, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
@@ -4048,7 +4048,7 @@ case 1:
 {
 Obj v_2319538_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "return;\n"));
 return;
 }
 case 2:
@@ -4130,7 +4130,7 @@ case 1:
 {
 Obj v_2319525_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "return;\n"));
 return;
 }
 case 2:
@@ -4156,7 +4156,7 @@ Obj v_2319522_25= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun96, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", R);\n"));
 return;
 }
 case 5:
@@ -4177,7 +4177,7 @@ Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun96, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 }
 case 7:
@@ -4199,7 +4199,7 @@ Obj v_exp = R[2];
 R[1] = v_label;
 R[2] = v_exp;
 saveCont(co, clofun96, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "saveCont(co, "));
 return;
 }
 }
@@ -4222,7 +4222,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v_args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -4230,7 +4230,7 @@ case 1:
 {
 Obj v_2319493_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", __args);\n"));
 return;
 }
 case 2:
@@ -4247,7 +4247,7 @@ Obj v_2319491_25= co->res;
 Obj v_nargs = R[1];
 R[1] = v_nargs;
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 }
 case 4:
@@ -4279,7 +4279,7 @@ Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
 saveCont(co, clofun95, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
@@ -4290,7 +4290,7 @@ Obj v_nargs = R[2];
 R[1] = v_f;
 R[2] = v_nargs;
 saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "};\n"));
 return;
 }
 case 8:
@@ -4316,7 +4316,7 @@ R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
 saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "] = {"));
 return;
 }
 case 10:
@@ -4336,7 +4336,7 @@ case 11:
 {
 Obj v_2319501_25= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ");\n"));
 return;
 }
 case 12:
@@ -4357,12 +4357,12 @@ Obj v_2319499_25 = PRIM_GT(v_nargs, MAKE_NUMBER(0));
 if (True == v_2319499_25) {
 R[1] = v_args;
 saveCont(co, clofun95, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ", "));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, ");\n"));
 return;
 }
 }
@@ -4401,7 +4401,7 @@ R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
 saveCont(co, clofun95, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "(co, "));
 return;
 }
 case 17:
@@ -4429,14 +4429,14 @@ R[1] = v_args;
 R[2] = v_f;
 R[3] = v_nargs;
 saveCont(co, clofun95, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = v_f;
 R[2] = v_nargs;
 R[3] = v_args;
 saveCont(co, clofun95, 17, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeStringLit(co->gc, "coraCall"));
 return;
 }
 }
@@ -4468,7 +4468,7 @@ Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun93, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "Obj "));
 return;
 }
 case 1:
@@ -4485,7 +4485,7 @@ Obj v_2319473_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "];\n"));
 return;
 }
 case 3:
@@ -4503,7 +4503,7 @@ Obj v_2319471_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, " = R["));
 return;
 }
 case 5:
@@ -4545,7 +4545,7 @@ Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun91, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "R["));
 return;
 }
 case 1:
@@ -4562,7 +4562,7 @@ Obj v_2319466_25= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun91, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, ";\n"));
 return;
 }
 case 3:
@@ -4584,7 +4584,7 @@ Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
 saveCont(co, clofun91, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeStringLit(co->gc, "] = "));
 return;
 }
 case 5:
@@ -5146,7 +5146,7 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_f, v_2318134_25, m
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5345,7 +5345,7 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v_2319337_25, closur
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5681,7 +5681,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5723,7 +5723,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v_hd, makeNative(co-
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -6323,7 +6323,7 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v_2319101_25, Nil, c
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -6619,7 +6619,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -7286,7 +7286,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), globalRef(co, getBin
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -7656,7 +7656,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_y, closureRef(R[0]
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -7737,7 +7737,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 74)), v_y, closureRef(R[0]
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8592,7 +8592,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), v_2318583_25, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "primitive call mismatch"));
 return;
 }
 }
@@ -8865,7 +8865,7 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8988,7 +8988,7 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -9030,7 +9030,7 @@ case 1:
 Obj v_2318489_25= co->res;
 Obj v_find = R[1];
 if (True == v_2318489_25) {
-coraReturn(co, makeCString(co->gc, "ERROR"));
+coraReturn(co, makeStringLit(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
@@ -9064,7 +9064,7 @@ case 1:
 Obj v_2318486_25= co->res;
 Obj v_find = R[1];
 if (True == v_2318486_25) {
-coraReturn(co, makeCString(co->gc, "ERROR"));
+coraReturn(co, makeStringLit(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
@@ -9134,7 +9134,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_2318029_25, v_hd)
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -9222,7 +9222,7 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 131)), v_2318398_25, closu
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -9254,7 +9254,7 @@ coraCall2(co, v_2318018_25, v_2318019_25, v_x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -9334,7 +9334,7 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 134)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeStringLit(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 8f011c1..f67c92e 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -361,7 +361,7 @@
 							(generate-num w x)
 							(generate-str w ")")))
 					  ((string? x) (begin
-							(generate-str w "makeCString(co->gc, \"")
+							(generate-str w "makeStringLit(co->gc, \"")
 							(generate-str w (escape-str x))
 							(generate-str w "\")")))
 					  ((= x ()) (generate-str w "Nil"))
diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index 4297ce7..69eb098 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -81,7 +81,7 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, 't');
 			break;
 		default:
-			if (c > 0 && c < 32) {
+			if (c >= 0 && c < 32) {
 				char oct[8];
 				snprintf(oct, sizeof(oct), "\\%03o", c);
 				dst = strCat(dst, cstr(oct));
diff --git a/src/types.h b/src/types.h
index 342757c..8b27810 100644
--- a/src/types.h
+++ b/src/types.h
@@ -80,6 +80,8 @@ int bytesLen(Obj o);
 
 Obj makeString(GC *gc, const char *s, int len);
 Obj makeCString(GC *gc, const char *s);
+// A string literal, which may contain NUL.
+#define makeStringLit(gc, s) makeString(gc, s, sizeof(s) - 1)
 str stringStr(Obj o);
 
 
-- 
2.43.0


From 3759262551696fbbf9889bdb93a5cef67713e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 30/53] fix: reading too deeply nested data is an error, not a
 stack overflow

---
 src/reader.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 851bbfc..7f35201 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -128,8 +128,8 @@ readNumber(FILE *in) {
 	return ret;
 }
 
-Obj
-sexpRead(GC *gc, FILE *in, int *errCode) {
+static Obj
+readDatum(GC *gc, FILE *in, int *errCode) {
 	int c;
 
 	eatWhitespace(in);
@@ -221,6 +221,22 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 	exit(1);
 }
 
+// Data nest on the C stack, which is limited.
+static const int maxDepth = 10000;
+
+Obj
+sexpRead(GC *gc, FILE *in, int *errCode) {
+	static int depth = 0;
+	if (depth == maxDepth) {
+		fprintf(stderr, "read too deeply nested data\n");
+		exit(1);
+	}
+	depth++;
+	Obj ret = readDatum(gc, in, errCode);
+	depth--;
+	return ret;
+}
+
 static void
 printCons(FILE *to, Obj o) {
 	fprintf(to, "(");
-- 
2.43.0


From cda28f969a03aa4c613dc6aeddd3a5fc6bb6e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 31/53] fix: comparing long or deeply nested data does not
 exhaust the C stack

---
 src/types.c | 35 +++++++++++++++++++++++++++++++++++
 src/types.h |  5 +++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/types.c b/src/types.c
index 5e01e5e..98e98a5 100644
--- a/src/types.c
+++ b/src/types.c
@@ -66,6 +66,41 @@ makeCons(GC *gc, Obj car, Obj cdr) {
 	return makeNaNPtr(&p->head, TAG_CONS);
 }
 
+// Whether two pairs are equal.  The parts yet to compare are kept in a stack of
+// their own, so that neither long nor deeply nested data exhaust the C stack.
+bool
+eqCons(Obj x, Obj y) {
+	Obj buf[64], *todo = buf;
+	int n = 0, cap = 64;
+	bool same = true;
+	todo[n++] = x;
+	todo[n++] = y;
+	while (same && n > 0) {
+		y = todo[--n];
+		x = todo[--n];
+		while (x != y && iscons(x) && iscons(y)) {
+			if (n + 2 > cap) {
+				Obj *tmp = malloc(2 * cap * sizeof(Obj));
+				memcpy(tmp, todo, n * sizeof(Obj));
+				if (todo != buf) {
+					free(todo);
+				}
+				todo = tmp;
+				cap = 2 * cap;
+			}
+			todo[n++] = cdr(x);
+			todo[n++] = cdr(y);
+			x = car(x);
+			y = car(y);
+		}
+		same = x == y || (!iscons(x) && eq(x, y));
+	}
+	if (todo != buf) {
+		free(todo);
+	}
+	return same;
+}
+
 static void
 consGCFunc(GC *gc, void *f) {
 	struct scmCons *from = f;
diff --git a/src/types.h b/src/types.h
index 8b27810..82ac861 100644
--- a/src/types.h
+++ b/src/types.h
@@ -115,13 +115,14 @@ struct scmBytes {
 	char data[];
 };
 
+bool eqCons(Obj x, Obj y);
+
 static inline bool
 eq(Obj x, Obj y) {
     if (x == y) return true;
 
     if (iscons(x) && iscons(y)) {
-        if (!eq(car(x), car(y))) return false;
-        return eq(cdr(x), cdr(y));
+        return eqCons(x, y);
     }
 
     if (isBytes(x) && isBytes(y)) {
-- 
2.43.0


From d9d1a9d78bfdc10de879bb49b87a526d7fc9b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 32/53] fix: bytes end with the NUL that C expects

---
 src/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.c b/src/types.c
index 98e98a5..5711414 100644
--- a/src/types.c
+++ b/src/types.c
@@ -139,6 +139,7 @@ makeBytes(GC *gc, int len) {
 	int alloc = len + sizeof(struct scmBytes) + 1;
 	struct scmBytes *str = newObj(gc, scmHeadBytes, alloc);
 	str->len = len;
+	str->data[len] = 0;
 	return makeNaNPtr(&str->head, TAG_BYTES);
 }
 
-- 
2.43.0


From 6a3711e0d73357e9a58143de8594d4c34410211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 33/53] fix: calls from C with too few or too many arguments

Such a call returned, or saved the continuation for the rest of the
arguments, before coraRun() had begun, so that the host's callstack
underflowed or the rest was never applied.
---
 src/runtime.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 572734f..60ac702 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -162,27 +162,44 @@ applyRest(Cora *co, int label, Obj *R) {
 	coraCall(co, co->res, label, args);
 }
 
+// Runs in the frame of a call with label arguments, which are not as many as
+// the function requires.
 static void
-coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
-	struct scmNative *f = mustNative(fn);
-	int required = f->required;
-	assert(nargs != required);
-	if (nargs < required) {
-		Obj ret = makeCurry(co, fn, nargs, args);
+dispatchCall(Cora *co, int label, Obj *R) {
+	Obj fn = R[0];
+	Obj args[label + 1];
+	memcpy(args, R + 1, label * sizeof(Obj));
+	co->ctx.sp = R;
+	int required = nativeRequired(fn);
+	if (label < required) {
+		Obj ret = makeCurry(co, fn, label, args);
 		coraReturn(co, ret);
 	} else {
 		// Save the remaining arguments in a continuation frame, where GC and
 		// throw can see them, then make the first call.
-		int rest = nargs - required;
-		Obj *R = stackAlloc(co, rest + 1);
-		R[0] = Nil;
+		int rest = label - required;
+		Obj *frame = stackAlloc(co, rest + 1);
+		frame[0] = Nil;
 		for (int i = 0; i < rest; i++) {
-			R[i + 1] = args[required + i];
+			frame[i + 1] = args[required + i];
 		}
-		saveCont(co, applyRest, rest, R);
+		saveCont(co, applyRest, rest, frame);
 		coraCall(co, fn, required, args);
 	}
-	return;
+}
+
+// The call is made by the trampoline: when it comes from C, the place to
+// return to is known only once coraRun() has begun.
+static void
+coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
+	assert(nargs != nativeRequired(fn));
+	Obj *frame = stackAlloc(co, nargs + 1);
+	frame[0] = fn;
+	for (int i = 0; i < nargs; i++) {
+		frame[i + 1] = args[i];
+	}
+	co->ctx.fn = dispatchCall;
+	co->ctx.label = nargs;
 }
 
 Binding
-- 
2.43.0


From 82fb686e0f48f6a137c07cc8230694afe70e9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 34/53] fix: vector? of a number does not follow it as a
 pointer

---
 src/types.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.c b/src/types.c
index 5711414..da91138 100644
--- a/src/types.c
+++ b/src/types.c
@@ -39,7 +39,7 @@ newObj(GC *gc, scmHeadType tp, int sz) {
 
 scmHead *
 getScmHead(Obj o) {
-	if (tag(o) == TAG_PTR) {
+	if (isobj(o) && tag(o) == TAG_PTR) {
 		return ptr(o);
 	}
 	return NULL;
@@ -370,7 +370,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 
 bool
 isvector(Obj o) {
-	if (tag(o) == TAG_PTR) {
+	if (isobj(o) && tag(o) == TAG_PTR) {
 		if (((scmHead *)ptr(o))->type == scmHeadVector) {
 			return true;
 		}
-- 
2.43.0


From 5469edeeb7d4d730bd0d55078e9485f19596cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 35/53] fix: integer? in compiled code and in the interpreter

---
 src/runtime.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 60ac702..7347ed5 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -1006,6 +1006,11 @@ primMul(Obj x, Obj y) {
 	}
 }
 
+Obj
+primIsNumber(Obj x) {
+	return isNumber(x) ? True : False;
+}
+
 Obj
 primGenSym(Cora *co) {
 	// The pointer is uniqueness and can be used as symbol->string
@@ -1151,6 +1156,7 @@ coraInit() {
 		makeNative(co->gc, 2, symbolToString, 1, 0));
 	primSet(co, intern("intern"), makeNative(co->gc, 2, builtinIntern, 1, 0));
 	primSet(co, intern("number?"), makeNative(co->gc, 2, builtinIsNumber, 1, 0));
+	primSet(co, intern("integer?"), makeNative(co->gc, 2, builtinIsNumber, 1, 0));
 	primSet(co, intern("read-file-as-sexp"),
 		makeNative(co->gc, 2, builtinReadFileAsSexp, 1, 0));
 	primSet(co, intern("string-append"),
-- 
2.43.0


From 4be5f68ac55c483f572939d1f62dddfcab824389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 36/53] fix: open-output-file makes the directories of a path
 of any length

---
 lib/io.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index 7a9dc1b..2610ac2 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -2,6 +2,8 @@
 #include "runtime.h"
 #include "str.h"
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 #include <sys/errno.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -16,14 +18,15 @@ builtinDisplay(struct Cora *co, int label, Obj *R) {
 // Create directories recursively like mkdir -p
 static int
 mkdirP(const char *path) {
-	char tmp[1024];
 	size_t len;
 	char *p;
 
 	if (!path)
 		return -1;
 
-	snprintf(tmp, sizeof(tmp), "%s", path);
+	char *tmp = strdup(path); // of any length
+	if (!tmp)
+		return -1;
 	len = strlen(tmp);
 
 	// remove trailing slash
@@ -38,7 +41,9 @@ mkdirP(const char *path) {
 		}
 	}
 
-	return mkdir(tmp, 0755);
+	int ret = mkdir(tmp, 0755);
+	free(tmp);
+	return ret;
 }
 
 static void
-- 
2.43.0


From 93e15160f36ce0356f45884851f7d683fd1711fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 37/53] fix: the sweep does not read past the table of size
 classes

---
 src/gc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gc.c b/src/gc.c
index 7b51df9..d8446b0 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -1056,7 +1056,9 @@ sweepSizeClass(GC *gc, struct runDoneProgress *pg) {
 	while (pg->sizeClassPos < sizeClassSZ) {
 		if (pg->b == NULL) {
 			pg->sizeClassPos++;
-			pg->b = gc->sizeClass[pg->sizeClassPos];
+			if (pg->sizeClassPos < sizeClassSZ) {
+				pg->b = gc->sizeClass[pg->sizeClassPos];
+			}
 			continue;
 		}
 		// Small step to finish one block in size class
-- 
2.43.0


From 2dd3e07c62f75b8fa75456c80d0a5e5390cacd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 38/53] fix: attributes of Markdown links, images and code are
 one string in the attribute list

---
 lib/md4c/wrap.c | 85 ++++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 58 deletions(-)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index ad9015b..6fa7be7 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -64,33 +64,24 @@ render_verbatim_leave(MD_HTML *r) {
 	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, tmp, old));
 }
 
-static void
-render_append_text1(MD_HTML *r, const MD_CHAR *data, MD_SIZE size) {
-	strBuf s = fromCStr("language-");
-	strBuf lang = fromBlk((char *)data, size);
-	s = strCat(s, toStr(lang));
-	append_curr(r, coraMakeString(r->co, toCStr(s), strLen(toStr(s))));
+/* The whole text of an attribute, whatever parts it was parsed from. */
+static Obj
+render_attribute(MD_HTML *r, const char *prefix, const MD_ATTRIBUTE *attr) {
+	int n = strlen(prefix);
+	char *buf = malloc(n + attr->size + 1);
+	memcpy(buf, prefix, n);
+	if (attr->size > 0) {
+		memcpy(buf + n, attr->text, attr->size);
+	}
+	Obj str = coraMakeString(r->co, buf, n + attr->size);
+	free(buf);
+	return str;
 }
 
-static void
-render_attribute(MD_HTML *r, const MD_ATTRIBUTE *attr,
-	void (*fn_append)(MD_HTML *, const MD_CHAR *, MD_SIZE)) {
-	int i;
-
-	for (i = 0; attr->substr_offsets[i] < attr->size; i++) {
-		MD_TEXTTYPE type = attr->substr_types[i];
-		MD_OFFSET off = attr->substr_offsets[i];
-		MD_SIZE size = attr->substr_offsets[i + 1] - off;
-		const MD_CHAR *text = attr->text + off;
-
-		switch (type) {
-			// case MD_TEXT_NULLCHAR:  render_utf8_codepoint(r, 0x0000, render_verbatim); break;
-			// case MD_TEXT_ENTITY:    render_entity(r, text, size, fn_append); break;
-		default:
-			fn_append(r, text, size);
-			break;
-		}
-	}
+/* (key "value") */
+static Obj
+make_attr(MD_HTML *r, const char *key, Obj value) {
+	return coraMakeCons(r->co, intern((char *)key), coraMakeCons(r->co, value, Nil));
 }
 
 static void
@@ -148,11 +139,8 @@ render_open_code_block(MD_HTML *r, const MD_BLOCK_CODE_DETAIL *det) {
 	/* If known, output the HTML 5 attribute class="language-LANGNAME". */
 	Obj attrs = Nil;
 	if (det->lang.text != NULL) {
-		attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, attrs, Nil));
-		coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("class"), Nil));
-		render_attribute(r, &det->lang, render_append_text1);
-		Obj tmp = coraReverse(r->co, coraSymbolGet(r->co, r->curr));
-		attrs = coraMakeCons(r->co, tmp, attrs);
+		Obj tmp = make_attr(r, "class", render_attribute(r, "language-", &det->lang));
+		attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, tmp, Nil));
 	}
 
 	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("code"), Nil));
@@ -278,11 +266,6 @@ leave_block_callback(MD_BLOCKTYPE type, void *detail, void *userdata) {
 	return 0;
 }
 
-static void
-render_url_escaped1(MD_HTML *r, const MD_CHAR *data, MD_SIZE size) {
-	append_curr(r, coraMakeString(r->co, data, size));
-}
-
 static void
 render_url_escaped(MD_HTML *r, MD_CHAR *data, MD_SIZE size) {
 	static MD_CHAR hex_chars[] = "0123456789ABCDEF";
@@ -327,18 +310,10 @@ render_open_a_span(MD_HTML *r, const MD_SPAN_A_DETAIL *det) {
 
 	Obj attrs = coraMakeCons(r->co, intern("@"), Nil);
 
-	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("href"), Nil));
-	render_attribute(r, &det->href, render_url_escaped1);
-	Obj tmp = coraReverse(r->co, coraSymbolGet(r->co, r->curr));
-	attrs = coraMakeCons(r->co, tmp, attrs);
+	attrs = coraMakeCons(r->co, make_attr(r, "href", render_attribute(r, "", &det->href)), attrs);
 
 	if (det->title.text != NULL) {
-		coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("title"), Nil));
-		render_attribute(r, &det->title, render_url_escaped1);
-		Obj tmp1 = coraReverse(r->co, coraSymbolGet(r->co, r->curr));
-		attrs = coraMakeCons(r->co, tmp1, attrs);
-		// curr = cons(intern("title"), curr);
-		// render_attribute(r, &det->title, render_html_escaped);
+		attrs = coraMakeCons(r->co, make_attr(r, "title", render_attribute(r, "", &det->title)), attrs);
 	}
 	attrs = coraReverse(r->co, attrs);
 	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, attrs, coraMakeCons(r->co, intern("a"), Nil)));
@@ -348,21 +323,15 @@ static void
 render_open_img_span(MD_HTML *r, const MD_SPAN_IMG_DETAIL *det) {
 	md_html_push(r);
 
-	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("src"), Nil));
-	render_attribute(r, &det->src, render_url_escaped1);
-	Obj tmp = coraReverse(r->co, coraSymbolGet(r->co, r->curr));
-	Obj attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, tmp, Nil));
-	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, attrs, coraMakeCons(r->co, intern("img"), Nil)));
-}
+	Obj attrs = coraMakeCons(r->co, intern("@"), Nil);
+
+	attrs = coraMakeCons(r->co, make_attr(r, "src", render_attribute(r, "", &det->src)), attrs);
 
-static void
-render_close_img_span(MD_HTML *r, const MD_SPAN_IMG_DETAIL *det) {
 	if (det->title.text != NULL) {
-		// RENDER_VERBATIM(r, "\" title=\"");
-		// render_attribute(r, &det->title, render_html_escaped);
+		attrs = coraMakeCons(r->co, make_attr(r, "title", render_attribute(r, "", &det->title)), attrs);
 	}
-
-	render_verbatim_leave(r);
+	attrs = coraReverse(r->co, attrs);
+	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, attrs, coraMakeCons(r->co, intern("img"), Nil)));
 }
 
 static int
@@ -448,7 +417,7 @@ leave_span_callback(MD_SPANTYPE type, void *detail, void *userdata) {
 		render_verbatim_leave(r);
 		break;
 	case MD_SPAN_IMG:
-		render_close_img_span(r, (MD_SPAN_IMG_DETAIL *)detail);
+		render_verbatim_leave(r);
 		break;
 	case MD_SPAN_CODE:
 		render_verbatim_leave(r);
-- 
2.43.0


From 3ba180797d0aad268659fc4153a3aafc9d96f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 39/53] fix: Markdown emphasis does not start inside the target
 of a link

---
 lib/md4c/md4c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index e16a20e..99099bc 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -4376,6 +4376,8 @@ md_analyze_marks(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines,
 			if ((mark->flags & MD_MARK_OPENER) &&
 				!((flags & MD_ANALYZE_NOSKIP_EMPH) && ISANYOF_(mark->ch, "*_~"))) {
 				MD_ASSERT(i < mark->next);
+				/* The closer may cover marks after it: a link its target. */
+				last_end = ctx->marks[mark->next].end;
 				i = mark->next + 1;
 			} else {
 				i++;
-- 
2.43.0


From 11f2607519261c8dd354ae766e05d9efc20d1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 40/53] fix: a Markdown list item is not ended because a line
 offset looks like a block type

---
 lib/md4c/md4c.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 99099bc..0182492 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -277,6 +277,9 @@ struct MD_CTX_tag {
 	int html_block_type;  /* For checking closing raw HTML condition. */
 	int last_line_has_list_loosening_effect;
 	int last_list_item_starts_with_two_blank_lines;
+
+	/* The size of block_bytes just after the last container was pushed there. */
+	int container_end;
 };
 
 enum MD_LINETYPE_tag {
@@ -5616,6 +5619,7 @@ md_push_container_bytes(MD_CTX *ctx, MD_BLOCKTYPE type, unsigned start,
 	block->flags = flags;
 	block->data = data;
 	block->n_lines = start;
+	ctx->container_end = ctx->n_block_bytes;
 
 abort:
 	return ret;
@@ -6390,7 +6394,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 				 * end the list because according to the specification, "a list
 				 * item can begin with at most one blank line."
 				 */
-				if (n_parents > 0 && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK)) {
+				if (n_parents > 0 && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK) && ctx->n_block_bytes == ctx->container_end) {
 					MD_BLOCK *top_block =
 						(MD_BLOCK *)((char *)
 								     ctx->block_bytes +
@@ -6409,7 +6413,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 			 * we would otherwise still belong to the list item, we enforce
 			 * the end of the list. */
 			if (ctx->last_list_item_starts_with_two_blank_lines) {
-				if (n_parents > 0 && n_parents == ctx->n_containers && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK)) {
+				if (n_parents > 0 && n_parents == ctx->n_containers && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK) && ctx->n_block_bytes == ctx->container_end) {
 					MD_BLOCK *top_block =
 						(MD_BLOCK *)((char *)
 								     ctx->block_bytes +
-- 
2.43.0


From e224fcfdd784797cf2de7235fd74c338ab10d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 41/53] fix: an empty Markdown list item after a blank line
 makes the list loose

---
 lib/md4c/md4c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 0182492..c166506 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6709,7 +6709,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 	*p_end = off;
 
 	/* If we belong to a list after seeing a blank line, the list is loose. */
-	if (prev_line_has_list_loosening_effect && line->type != MD_LINE_BLANK && n_parents + n_brothers > 0) {
+	if (prev_line_has_list_loosening_effect && (line->type != MD_LINE_BLANK || n_brothers > 0) && n_parents + n_brothers > 0) {
 		MD_CONTAINER *c =
 			&ctx->containers[n_parents + n_brothers - 1];
 		if (c->ch != _T('>')) {
-- 
2.43.0


From 472224baa00574661c97264ea64fc25f75bf7ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 42/53] fix: a Markdown task after an item that ends with a
 quotation is a task

---
 lib/md4c/md4c.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index c166506..a22c518 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6626,19 +6626,17 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 		}
 
 		/* Check for task mark. */
-		if ((ctx->parser.flags & MD_FLAG_TASKLISTS) && n_brothers + n_children > 0 && ISANYOF_(ctx->containers[ctx->n_containers - 1].ch, _T("-+*.)"))) {
+		MD_CONTAINER *task_container =
+			(n_children > 0
+					? &ctx->containers[ctx->n_containers - 1]
+					: &container);
+		if ((ctx->parser.flags & MD_FLAG_TASKLISTS) && n_brothers + n_children > 0 && ISANYOF_(task_container->ch, _T("-+*.)"))) {
 			OFF tmp = off;
 
 			while (tmp < ctx->size && tmp < off + 3 && ISBLANK(tmp))
 				tmp++;
 			if (tmp + 2 < ctx->size && CH(tmp) == _T('[') &&
 				ISANYOF(tmp + 1, _T("xX ")) && CH(tmp + 2) == _T(']') && (tmp + 3 == ctx->size || ISBLANK(tmp + 3) || ISNEWLINE(tmp + 3))) {
-				MD_CONTAINER *task_container =
-					(n_children >
-								0
-							? &ctx->containers[ctx->n_containers -
-								  1]
-							: &container);
 				task_container->is_task = TRUE;
 				task_container->task_mark_off = tmp + 1;
 				off = tmp + 3;
-- 
2.43.0


From 1d08050fcddff66c7cc5fd9508786f7ec95ecff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 43/53] fix: processes that load files at the same time do not
 share their temporary files

---
 src/runtime.c | 66 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 7347ed5..64190dc 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -445,11 +445,11 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	// The compiler runs before the path is used again and may collect the string.
 	strBuf filePathBuf = strDup(stringStr(filePath));
 	str filePathStr = toStr(filePathBuf);
-	const int BUFSIZE = 512;
-	char buf[BUFSIZE];
 	int cfileidx = unique;
 	unique++;
-	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
+	// Other processes load files at the same time.
+	char buf[64];
+	snprintf(buf, sizeof(buf), "/tmp/cora-xxx-%d-%d.c", (int)getpid(), cfileidx);
 	str tmpCFile = cstr(buf);
 	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
 	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
@@ -459,39 +459,69 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	// TODO: check res?
 	// Obj res = co->args[1];
 
-	strBuf tmp;
+	char tmpSo[64];
+	snprintf(tmpSo, sizeof(tmpSo), ".%d-%d.so", (int)getpid(), cfileidx);
 	strBuf path = getCoraPath();
 	str coraPath = toStr(path);
-	if (strLen(filePathStr) > strLen(coraPath) &&
-		strCmp(strSub(filePathStr, 0, strLen(coraPath)), coraPath) == 0) {
+	strBuf tmp = strNew(64);
+	strBuf out = strNew(64);
+	bool package = strLen(filePathStr) > strLen(coraPath) &&
+		       strCmp(strSub(filePathStr, 0, strLen(coraPath)), coraPath) == 0;
+	if (package) {
 		// The cora file is in $CORAPATH, it might be a import package
-		tmp = strNew(filePathStr.len);
-		tmp = strCat(tmp, strSub(filePathStr, 0, strLen(filePathStr) - 5));
+		// It appears under its name when it is complete.
+		str base = strSub(filePathStr, 0, strLen(filePathStr) - 5);
+		tmp = strCpy(tmp, base);
 		tmp = strCat(tmp, S(".so"));
+		out = strCpy(out, base);
+		out = strCat(out, cstr(tmpSo));
 	} else {
-		tmp = strNew(30);
-		snprintf(toCStr(tmp), 30, "/tmp/cora-xxx-%d.so", cfileidx);
-	}
-
-	snprintf(buf, BUFSIZE,
-		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d.c -o "
-		"%s -ldl -lm -L%s -lcora",
-		coraSrcDir, cfileidx, toCStr(tmp), coraSrcDir);
+		tmp = strCpy(tmp, S("/tmp/cora-xxx"));
+		tmp = strCat(tmp, cstr(tmpSo));
+		out = strCpy(out, toStr(tmp));
+	}
+
+	strBuf cmd = strNew(512);
+	cmd = strCpy(cmd, S("gcc -shared -I'"));
+	cmd = strCat(cmd, cstr((char *)coraSrcDir));
+	cmd = strCat(cmd, S("' -g -fPIC "));
+	cmd = strCat(cmd, cstr(buf));
+	cmd = strCat(cmd, S(" -o '"));
+	cmd = strCat(cmd, toStr(out));
+	cmd = strCat(cmd, S("' -ldl -lm -L'"));
+	cmd = strCat(cmd, cstr((char *)coraSrcDir));
+	cmd = strCat(cmd, S("' -lcora"));
 	strFree(path);
 	strFree(filePathBuf);
-	int exitCode = system(buf);
+	int exitCode = system(toCStr(cmd));
+	strFree(cmd);
+	unlink(buf);
+	if (exitCode == 0 && package) {
+		exitCode = rename(toCStr(out), toCStr(tmp));
+	}
 	if (exitCode != 0) {
+		unlink(toCStr(out));
+		strFree(out);
 		strFree(tmp);
 		coraReturn(co, makeNumber(exitCode));
 		return;
 	}
 
+	strFree(out);
 	arg1 = makeCString(co->gc, toCStr(tmp));
-	strFree(tmp);
 	arg2 = makeCString(co->gc, "");
 	fn = globalRef(co, bindSymbol(co, intern("load-so")));
 	co->ctx.sp = R;
+	if (package) {
+		strFree(tmp);
+		coraCall2(co, fn, arg1, arg2);
+		return;
+	}
 	coraCall2(co, fn, arg1, arg2);
+	coraRun(co);
+	unlink(toCStr(tmp));
+	strFree(tmp);
+	coraReturn(co, co->res);
 	return;
 }
 
-- 
2.43.0


From 4dca1ca503aed5806de7ad64d9cb012e0bdfbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 44/53] fix: load runs the current content of a file it has
 loaded before, and an import compiles a source changed within the second

---
 src/runtime.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 64190dc..47072b3 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -496,9 +496,6 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	int exitCode = system(toCStr(cmd));
 	strFree(cmd);
 	unlink(buf);
-	if (exitCode == 0 && package) {
-		exitCode = rename(toCStr(out), toCStr(tmp));
-	}
 	if (exitCode != 0) {
 		unlink(toCStr(out));
 		strFree(out);
@@ -507,21 +504,23 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		return;
 	}
 
+	// load-so finds it by this name, which no earlier load has used: a library
+	// already loaded under the same name would be taken instead of the file.
+	if (dlopen(toCStr(out), RTLD_LAZY) != NULL) {
+		if (package) {
+			rename(toCStr(out), toCStr(tmp));
+		} else {
+			unlink(toCStr(out));
+		}
+	}
+	strFree(tmp);
+
+	arg1 = makeCString(co->gc, toCStr(out));
 	strFree(out);
-	arg1 = makeCString(co->gc, toCStr(tmp));
 	arg2 = makeCString(co->gc, "");
 	fn = globalRef(co, bindSymbol(co, intern("load-so")));
 	co->ctx.sp = R;
-	if (package) {
-		strFree(tmp);
-		coraCall2(co, fn, arg1, arg2);
-		return;
-	}
 	coraCall2(co, fn, arg1, arg2);
-	coraRun(co);
-	unlink(toCStr(tmp));
-	strFree(tmp);
-	coraReturn(co, co->res);
 	return;
 }
 
@@ -553,7 +552,9 @@ safeToUseSo(strBuf soFilePath) {
 			strerror(errno));
 		goto exit;
 	}
-	if (coraFileStat.st_mtime > soFileStat.st_mtime) {
+	if (coraFileStat.st_mtim.tv_sec > soFileStat.st_mtim.tv_sec ||
+		(coraFileStat.st_mtim.tv_sec == soFileStat.st_mtim.tv_sec &&
+			coraFileStat.st_mtim.tv_nsec > soFileStat.st_mtim.tv_nsec)) {
 		res = false;
 	}
 exit:
-- 
2.43.0


From e9dc00e0fb4df103b90e6f4bd81123fd8e91a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 45/53] fix: emphasis does not start inside a link target after
 raw HTML in it

---
 lib/md4c/md4c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index a22c518..1d91e7e 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -4380,7 +4380,8 @@ md_analyze_marks(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines,
 				!((flags & MD_ANALYZE_NOSKIP_EMPH) && ISANYOF_(mark->ch, "*_~"))) {
 				MD_ASSERT(i < mark->next);
 				/* The closer may cover marks after it: a link its target. */
-				last_end = ctx->marks[mark->next].end;
+				if (last_end < ctx->marks[mark->next].end)
+					last_end = ctx->marks[mark->next].end;
 				i = mark->next + 1;
 			} else {
 				i++;
-- 
2.43.0


From c100336e7c162bb6029eb1642152041031cc5f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 46/53] fix: receiving from a closed connection ends, and
 sending to one is an error

---
 lib/net.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/net.c b/lib/net.c
index c27ad3d..c7a2bda 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -10,6 +10,10 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 __thread int pollfd = -1;
 
 #ifdef __APPLE__
@@ -141,7 +145,8 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 	/* printf("call net send fd ===%d\n", fd); */
 
 	while (pos < len) {
-		int ret = send(fd, buf + pos, len - pos, 0);
+		// A closed connection is an error to report, not a signal.
+		int ret = send(fd, buf + pos, len - pos, MSG_NOSIGNAL);
 		if (ret < 0) {
 			if (errno == EAGAIN || errno == EWOULDBLOCK) {
 				/* printf("EAGAIN here...%d\n", pos); */
@@ -152,8 +157,9 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 				return;
 			}
 			// [err errno]
-			printf("netSend error %d\n", errno);
-			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(errno), Nil)));
+			int err = errno;
+			printf("netSend error %d\n", err);
+			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(err), Nil)));
 			return;
 		}
 		pos = pos + ret;
@@ -172,7 +178,7 @@ netPoll(struct Cora *ctx, int label, Obj *R) {
 }
 
 // input: (net-recv fd buf pos)
-// output: [block pos] or [ok] or [err errno]
+// output: [block pos] or [ok] or [eof pos] or [err errno]
 static void
 netRecv(struct Cora *ctx, int label, Obj *R) {
 	Obj arg1 = R[1];
@@ -196,9 +202,16 @@ netRecv(struct Cora *ctx, int label, Obj *R) {
 				return;
 			}
 			// [err errno]
-			printf("netRecv error %d\n", errno);
+			int err = errno;
+			printf("netRecv error %d\n", err);
 			perror("recv error");
-			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(errno), Nil)));
+			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(err), Nil)));
+			return;
+		}
+		if (ret == 0) {
+			// the other side is closed, there is no more to receive
+			// [eof pos]
+			coraReturn(ctx, makeCons(ctx->gc, intern("eof"), makeCons(ctx->gc, makeNumber(pos), Nil)));
 			return;
 		}
 		pos = pos + ret;
-- 
2.43.0


From 8ed33e2280005d9066c359f5aa37a06338c2911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 47/53] fix: a send that blocks after an earlier one that
 blocked is woken up

---
 lib/async.cora | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/async.cora b/lib/async.cora
index af7df28..251b10a 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -173,7 +173,9 @@
 					     new-mode (filter
 						       (lambda (m) (not (= 'write m)))
 						       old-mode)
-					     (net-poll-mod fd new-mode conn))
+					     (begin
+					      (conn-set-mode! conn new-mode)
+					      (net-poll-mod fd new-mode conn)))
 					(spawn (lambda () (k res)))))
 	_ k => (display "wrong argument for send-handler\n"))
 
-- 
2.43.0


From d664dc2477414bd1082e62d2b7a6dfa2e0731593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 48/53] fix: the event loop tells a blocked transfer from a
 failed one

---
 lib/async.cora | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 251b10a..48fa4af 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -129,7 +129,7 @@
 	[conn buf pos] k => (begin
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
-				    [block pos] (begin
+				    ['block pos] (begin
 						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k)))
 						 ;; (display "recv-handler block and go to scheduler\n")
 						 (schedule)
@@ -157,7 +157,7 @@
 
   (func send-handler
 	[conn buf pos] k => (match (net-send (conn-fd conn) buf pos)
-				   [block pos] (begin
+				   ['block pos] (begin
 						(event-loop-add conn 'write (lambda (conn)
 									      (send-handler [conn buf pos] k)))
 						;; (display "send-handler block and go to schedule\n")
@@ -182,7 +182,7 @@
   (defun send-op (conn buf pos)
     (let try (lambda ()
 	       (match (net-send (conn-fd conn) buf pos)
-		      [block pos] (begin
+		      ['block pos] (begin
 				   (conn-set-extra! conn pos)
 				   false)
 		      res res))
-- 
2.43.0


From 7d31f03e1a42ede3d811ae48e0b5c170b960d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 49/53] fix: an image does not begin inside the target of a
 link

---
 lib/md4c/md4c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 1d91e7e..9974c56 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -3693,11 +3693,12 @@ md_resolve_links(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines) {
 		/* If nested ("[ [ ] ]"), we need to make sure that:
 		 *   - The outer does not end inside of (...) belonging to the inner.
 		 *   - The outer cannot be link if the inner is link (i.e. not image).
+		 *   - Nothing begins inside of (...) belonging to a previous one.
 		 *
 		 * (Note we here analyze from inner to outer as the marks are ordered
 		 * by closer->beg.)
 		 */
-		if ((opener->beg < last_link_beg && closer->end < last_link_end) || (opener->beg < last_img_beg && closer->end < last_img_end) || (opener->beg < last_link_end && opener->ch == '[')) {
+		if ((opener->beg < last_link_beg && closer->end < last_link_end) || (opener->beg < last_img_beg && closer->end < last_img_end) || (opener->beg < last_link_end && opener->ch == '[') || (opener->beg > last_link_beg && opener->beg < last_link_end) || (opener->beg > last_img_beg && opener->beg < last_img_end)) {
 			opener_index = next_index;
 			continue;
 		}
-- 
2.43.0


From 0a1cbdb0b0e28f6cea6613eacaf1b92173e9d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 50/53] fix: apostrophes are escaped in markup, backslashes are
 not

---
 lib/sxml.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sxml.cora b/lib/sxml.cora
index d49b0f6..8f490da 100644
--- a/lib/sxml.cora
+++ b/lib/sxml.cora
@@ -57,7 +57,7 @@
 			(cond
 			 ((= c 34) (buffer-append buf "&quot;"))  ;; "
 			 ((= c 38) (buffer-append buf "&amp;"))  ;; &
-			 ((= c 92) (buffer-append buf "&apos;"))  ;; \
+			 ((= c 39) (buffer-append buf "&apos;"))  ;; '
 			 ((= c 60) (buffer-append buf "&lt;"))  ;; <
 			 ((= c 62) (buffer-append buf "&gt;"))  ;; >
 			 (true (buffer-append buf (string-index str i)))))
-- 
2.43.0


From 0dd826d0b918fd3c5ddbbc90181a6fd277ad700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 51/53] fix: matching a string at the end of the text fails
 instead of crashing

---
 lib/peg.cora | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index 091175b..2a08b5e 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -58,7 +58,8 @@
 	       [] rem => ['ok rem]
 	       [h1 . t1] [h2 . t2] => (if (= h1 h2)
 					  (sub-list? t1 t2)
-					  ['fail]))
+					  ['fail])
+	       _ [] => ['fail])
 
 	 ;; matches string str
 	 (defun <string> (str)
-- 
2.43.0


From 5297afad82e9e9f77b963e70fbad96dd91c7c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 52/53] fix: alternatives, options, repetitions and lookahead
 of PEGs go back to where they began

---
 lib/peg.cora | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index 2a08b5e..1d2463c 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -127,19 +127,19 @@
 	 (defun @or (p1 p2)
 	   (lambda (toks)
 	     (match (p1 toks)
-	       ['ok v1 toks] ['ok v1 toks]
-	       ['fail toks] (p2 toks))))
+	       ['ok v1 toks1] ['ok v1 toks1]
+	       ['fail _] (p2 toks))))
 
 	 (defun @! (p)
 	   (lambda (toks)
 	     (match (p toks)
-	       ['ok _ toks1] ['fail toks1]
-	       ['fail toks1] ['ok v toks1])))
+	       ['ok _ _] ['fail toks]
+	       ['fail _] ['ok () toks])))
 
 	 (defun recur-h (p toks res k)
 	   (match (p toks)
 	     ['ok v toks1] (recur-h p toks1 (cons v res) k)
-	     ['fail toks1] (k res toks1)))
+	     ['fail _] (k res toks)))
 	 
 	 ;; match p 1 or more times
 	 (defun @+ (p)
@@ -161,7 +161,7 @@
 	   (lambda (toks)
 	     (match (p toks)
 	       ['ok v toks1] ['ok v toks1]
-	       ['fail toks1] ['ok () toks1])))
+	       ['fail _] ['ok () toks])))
 
 	 ;; (defun @& (p)
 	 ;;   ...)
-- 
2.43.0


From db203f31e6e828e2aec34eb5ea3f686430ab3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 53/53] fix: a choice of events commits one of them; messages
 may be false; wrappers run in their process

---
 lib/async.cora | 28 ++++++++++++++--------------
 lib/chan.cora  | 36 +++++++++++++++---------------------
 lib/cml.cora   | 47 +++++++++++++++++++++++++++++++++--------------
 3 files changed, 62 insertions(+), 49 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 48fa4af..020b126 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -126,11 +126,11 @@
 	 (conn-make fd)))
 
   (func recv-handler
-	[conn buf pos] k => (begin
+	[conn buf pos] k wrap => (begin
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
 				    ['block pos] (begin
-						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k)))
+						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k wrap)))
 						 ;; (display "recv-handler block and go to scheduler\n")
 						 (schedule)
 						 ;; (display "finish schedule in recv-handler")
@@ -138,7 +138,7 @@
 				    res (begin
 					 (conn-set-read-callback! conn ())
 					 ;; (display "before recv handler direct return\n")
-					 (spawn (lambda () (k res)))
+					 (spawn (lambda () (k (lambda () (wrap res)))))
 					 ;; (display "after recv handler direct return\n")
 					 ))))
 
@@ -146,8 +146,8 @@
 
   (defun recv-op (conn buf pos)
     (let try (lambda () false)
-	 block (lambda (k wrap)
-		 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k))))
+	 block (lambda (state k wrap)
+		 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k wrap))))
 	 [try block default-wrap]))
 
   (defun recv (conn buf)
@@ -156,10 +156,10 @@
       (perform (recv-op conn buf 0))))
 
   (func send-handler
-	[conn buf pos] k => (match (net-send (conn-fd conn) buf pos)
+	[conn buf pos] k wrap => (match (net-send (conn-fd conn) buf pos)
 				   ['block pos] (begin
 						(event-loop-add conn 'write (lambda (conn)
-									      (send-handler [conn buf pos] k)))
+									      (send-handler [conn buf pos] k wrap)))
 						;; (display "send-handler block and go to schedule\n")
 						(schedule)
 						;; (display "finish send-handler\n")
@@ -176,8 +176,8 @@
 					     (begin
 					      (conn-set-mode! conn new-mode)
 					      (net-poll-mod fd new-mode conn)))
-					(spawn (lambda () (k res)))))
-	_ k => (display "wrong argument for send-handler\n"))
+					(spawn (lambda () (k (lambda () (wrap res)))))))
+	_ k wrap => (display "wrong argument for send-handler\n"))
 
   (defun send-op (conn buf pos)
     (let try (lambda ()
@@ -185,15 +185,15 @@
 		      ['block pos] (begin
 				   (conn-set-extra! conn pos)
 				   false)
-		      res res))
-	 block (lambda (k wrap)
+		      res [res]))
+	 block (lambda (state k wrap)
 		 (begin
 		  ;; (display "send-op\n")
 		  (let pos1 (conn-extra conn)
 		       (event-loop-add conn 'write (lambda (conn)
 						     (begin
 						      ;; (display "in send callback\n")
-						      (send-handler [conn buf pos1] k)))))))
+						      (send-handler [conn buf pos1] k wrap)))))))
 	 [try block default-wrap]))
 
   (defun send (conn buf)
@@ -205,7 +205,7 @@
 
   (defun accept-op (ln)
     (let try (lambda () false)
-	 block (lambda (k wrap)
+	 block (lambda (state k wrap)
 		 (begin
 		  ;; (display "accept-op\n")
 		  (event-loop-add ln 'read (lambda (conn)
@@ -221,7 +221,7 @@
 						    (spawn (lambda ()
 							     (begin
 							      ;; (display "accept spawn called\n")
-							      (k new-conn)))))))))))
+							      (k (lambda () (wrap new-conn)))))))))))))
 	 [try block default-wrap]))
 
   (defun accept (ln)
diff --git a/lib/chan.cora b/lib/chan.cora
index ce37843..1d3590c 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -14,25 +14,22 @@
 			     false
 			     (match (dequeue sendq)
 			       [state resume val wrap]
-			       (if (= 'Done (value state))
+			       (if (committed? state)
 				   (recv-try [sendq recvq]) ;; ignore stale item and continue
 				   (begin
-				     (enqueue-task (lambda () (resume (wrap ()))))
-				     (set state 'Done)
-				     val)))))
+				     (enqueue-task (lambda () (resume (lambda () (wrap ())))))
+				     (commit! state)
+				     [val])))))
 
-  (defun recv-block (recvq k wrap)
-    (let state (gensym)
-      (begin
-	(set state 'Wait)
-	(enqueue recvq [state k wrap]))))
+  (defun recv-block (recvq state k wrap)
+    (enqueue recvq [state k wrap]))
 
   (defun default-wrap (x) x)
 
   ;; recv on channel is an operation
   (defun chan-recv (ch)
     (let try (lambda () (recv-try ch))
-      block (lambda (k wrap) (recv-block (cadr ch) k wrap))
+      block (lambda (state k wrap) (recv-block (cadr ch) state k wrap))
       [try block default-wrap]))
 
   (func send-try
@@ -40,26 +37,23 @@
 				 false
 				 (match (dequeue recvq)
 					[state resume wrap]
-					(if (= 'Done (value state))
-					    (send-try [sendq recvq]) ;; ignore stale
+					(if (committed? state)
+					    (send-try [sendq recvq] val) ;; ignore stale
 					    (begin
 					      (enqueue-task (lambda ()
 							      (begin
 								;; (io.display "resume recv op\n")
-								(resume (wrap val)))))
-					      (set state 'Done)
-					      ())))))
+								(resume (lambda () (wrap val))))))
+					      (commit! state)
+					      [()])))))
 
-  (defun send-block (sendq k val wrap)
-    (let state (gensym)
-      (begin
-	(set state 'Wait)
-	(enqueue sendq [state k val wrap]))))
+  (defun send-block (sendq state k val wrap)
+    (enqueue sendq [state k val wrap]))
 
   ;; send on channel is an operation
   (defun chan-send (ch val)
     (let try (lambda () (send-try ch val))
-      block (lambda (k wrap) (send-block (car ch) k val wrap))
+      block (lambda (state k wrap) (send-block (car ch) state k val wrap))
       [try block default-wrap]))
 
   )
diff --git a/lib/cml.cora b/lib/cml.cora
index 99508f4..40ad9a9 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -9,7 +9,8 @@
   (import "cora/lib/rand")
   (import "cora/lib/sys")
   (import "cora/lib/io")
-  (export cml-entry perform spawn yield wrap schedule enqueue-task register-scheduler)
+  (export cml-entry perform spawn yield wrap schedule enqueue-task register-scheduler
+	  committed? commit!)
 
   (defun task-queue ()
     (thread-local-get 'cora/lib/cml#task-queue))
@@ -98,6 +99,23 @@
 
   (defun default-wrap (x) x)
 
+  ;; An operation is [try block wrap].
+  ;; (try) returns [value] if the operation is done at once, or false.
+  ;; (block state k wrap) leaves the operation to the party that completes it later: the one
+  ;; that finds the state not yet committed, commits it and resumes k with (lambda () (wrap value)).
+  ;; The operations of a choice share one state, so that only one of them is completed.
+  (defun make-state ()
+    (let state (vector 1)
+	 (begin
+	  (vector-set! state 0 false)
+	  state)))
+
+  (defun committed? (state)
+    (vector-ref state 0))
+
+  (defun commit! (state)
+    (vector-set! state 0 true))
+
   ;; wrap an operation to get another operation.
   ;; fn receive the value of the operation.
   (func wrap
@@ -107,18 +125,18 @@
 	[] => false
 	[[try1 block1 wrap1] . remain] => (match (try1)
 					    false (choice-ops-try remain)
-					    v (wrap1 v)))
+					    [v] [(lambda () (wrap1 v))]))
 
   (defun choice-op (ops)
     (let try (lambda () (choice-ops-try ops))
-      block (lambda (k wrap)
+      block (lambda (state k wrap)
 	      (for-each (lambda (op)
 			  (match op
 			    [try1 block1 wrap1]
-			    (block1 k (lambda (v)
-					(wrap (wrap1 v))))))
+			    (block1 state k (lambda (v)
+					      (wrap (lambda () (wrap1 v)))))))
 			ops))
-      [try block default-wrap]))
+      [try block (lambda (th) (th))]))
 
   (func random-split
 	[] to1 to2 => (cons to1 to2)
@@ -159,12 +177,13 @@
 	 wrap (caddr op)
 	 (let v (try)
 	      (if (= v false)
-		  (throw (lambda (k)
-			   (begin
-			    (block k wrap)
-			    ;; (display "perform called block, now schedule\n")
-			    (schedule)
-			    ;; (display "perform called block, schedule exit\n")
-			    )))
-		  (wrap v)))))
+		  ;; the operation is resumed with a thunk, so that wrap runs here
+		  ((throw (lambda (k)
+			    (begin
+			     (block (make-state) k wrap)
+			     ;; (display "perform called block, now schedule\n")
+			     (schedule)
+			     ;; (display "perform called block, schedule exit\n")
+			     ))))
+		  (wrap (car v))))))
   )
-- 
2.43.0

