From e2147ae6f6fa688d521a0fbbac0c332bfcc25711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 01/69] fix: order and compare numbers and text without
 overflow or rounding

---
 lib/val.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/lib/val.c b/lib/val.c
index b0d27ee..1cdec24 100644
--- a/lib/val.c
+++ b/lib/val.c
@@ -19,7 +19,7 @@ static inline i64 lStringGreater(const lBuffer *a, const lBuffer *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
 }
 
 static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
@@ -35,7 +35,25 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 			return ac - bc;
 		}
 	}
-	return alen - blen;
+	return (i64)alen - (i64)blen;
+}
+
+/* Compare an integer to a float without losing precision, converting the integer
+ | to a float would round it. Returns -1, 0 or 1.
+ */
+static i64 lIntFloatGreater(const i64 a, const double b) {
+	if(unlikely(b >= 9223372036854775808.0)){
+		return -1;
+	}
+	if(unlikely(b < -9223372036854775808.0)){
+		return 1;
+	}
+	const i64 t = (i64)b;
+	if(a != t){
+		return a < t ? -1 : 1;
+	}
+	const double frac = b - (double)t;
+	return frac > 0.0 ? -1 : frac < 0.0;
 }
 
 /* Checks if A is greater than B, returns 0 if the two values can't be compared
@@ -44,17 +62,9 @@ static inline i64 lSymbolGreater(const lSymbol *a, const lSymbol *b) {
 i64 lValGreater(const lVal a, const lVal b){
 	if(unlikely(a.type != b.type)){
 		if((a.type == ltInt) && (b.type == ltFloat)){
-			return (((float)a.vInt) < b.vFloat)
-				? -1
-				: (((float)a.vInt) > b.vFloat)
-				  ? 1
-				  : 0;
+			return lIntFloatGreater(a.vInt, b.vFloat);
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return (a.vFloat < ((float)b.vInt))
-				? -1
-				: (a.vFloat > ((float)b.vInt))
-				  ? 1
-				  : 0;
+			return -lIntFloatGreater(b.vInt, a.vFloat);
 		}
 		return 0;
 	}
@@ -62,9 +72,9 @@ i64 lValGreater(const lVal a, const lVal b){
 	default:
 		return 0;
 	case ltInt:
-		return a.vInt - b.vInt;
+		return a.vInt < b.vInt ? -1 : a.vInt > b.vInt;
 	case ltFloat:
-		return a.vFloat < b.vFloat ? -1 : 1;
+		return a.vFloat < b.vFloat ? -1 : a.vFloat > b.vFloat;
 	case ltKeyword:
 	case ltSymbol:
 		return lSymbolGreater(a.vSymbol, b.vSymbol);
@@ -77,9 +87,9 @@ i64 lValGreater(const lVal a, const lVal b){
 bool lValEqual(const lVal a, const lVal b) {
 	if (unlikely(a.type != b.type)) {
 		if ((a.type == ltInt) && (b.type == ltFloat)) {
-			return ((float)a.vInt) == b.vFloat;
+			return lIntFloatGreater(a.vInt, b.vFloat) == 0;
 		} else if ((a.type == ltFloat) && (b.type == ltInt)) {
-			return a.vFloat == ((float)b.vInt);
+			return lIntFloatGreater(b.vInt, a.vFloat) == 0;
 		}
 		return false;
 	}
-- 
2.43.0


From a692ae7c9af64194164852047009afbd46a09fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 02/69] fix: integer division neither traps on zero nor on the
 smallest integer

---
 lib/arithmetic.c | 8 +++++---
 lib/vm.c         | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 440eddf..a2eaaea 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -128,7 +128,8 @@ static lVal lnfRem(lVal a, lVal b){
 			if(b.vInt == 0){
 				return lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL);
 			}
-			return lValInt(a.vInt % b.vInt);
+			// x % -1 is always 0, computing it traps for the smallest integer
+			return lValInt((b.vInt == -1) ? 0 : a.vInt % b.vInt);
 		case ltFloat: {
 			lVal av = requireFloat(a);
 			if(unlikely(av.type == ltException)){
@@ -191,14 +192,15 @@ static lVal lnfDivAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt / b.vInt);
+	// The quotient of the smallest integer and -1 doesn't fit and traps, wrap it around like all the other operations
+	return lValInt((b.vInt == -1) ? (i64)(0 - (u64)a.vInt) : a.vInt / b.vInt);
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
-	return lValInt(a.vInt % b.vInt);
+	return lValInt((b.vInt == -1) ? 0 : a.vInt % b.vInt);
 }
 
 static lVal lnfLogAnd(lVal a, lVal b){
diff --git a/lib/vm.c b/lib/vm.c
index e41f59e..17c3f80 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -348,7 +348,11 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vInt = a.vInt % b.vInt;
+				if(unlikely(b.vInt == 0)){
+					lThrow(lValException(lSymDivisionByZero, "Module/Dividing by zero is probably not what you wanted", NIL));
+				}
+				// x % -1 is always 0, computing it traps for the smallest integer
+				ctx.valueStack[ctx.sp].vInt = (b.vInt == -1) ? 0 : a.vInt % b.vInt;
 			} else if(likely(b.type == ltFloat)){
 				const lVal r = lValFloat(fmod(a.vInt, b.vFloat));
 				if(unlikely(r.type == ltException)){
-- 
2.43.0


From 03b1571cd2bd241419e1d06a8e1e735312b15aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 03/69] fix: the arithmetic opcodes raise an exception instead
 of producing NaN or infinity

---
 lib/vm.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 17c3f80..6a05aa3 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -210,6 +210,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIntByte)
 		ctx.valueStack[++ctx.sp] = lValInt((i8)*ip++);
 		vmbreak;
+
+#define vmFloatResult(expr) do{\
+	const lVal fr = lValFloat(expr);\
+	if(unlikely(fr.type == ltException)){\
+		lThrow(fr);\
+	}\
+	ctx.valueStack[ctx.sp] = fr;\
+	} while(0)
+
 	vmcase(lopAdd) {
 		const lVal a = ctx.valueStack[ctx.sp-1];
 		const lVal b = ctx.valueStack[ctx.sp];
@@ -218,15 +227,15 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt += b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(b.vFloat + a.vInt);
+				vmFloatResult(a.vInt + b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat += b.vFloat;
+				vmFloatResult(a.vFloat + b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat += b.vInt;
+				vmFloatResult(a.vFloat + b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			}
@@ -244,7 +253,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt -= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt - b.vFloat);
+				vmFloatResult(a.vInt - b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -252,9 +261,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vFloat;
+				vmFloatResult(a.vFloat - b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat -= b.vInt;
+				vmFloatResult(a.vFloat - b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -274,7 +283,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			if(likely(b.type == ltInt)){
 				ctx.valueStack[ctx.sp].vInt *= b.vInt;
 			} else if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp] = lValFloat(a.vInt * b.vFloat);
+				vmFloatResult(a.vInt * b.vFloat);
 			} else if(b.type != ltNil){
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
@@ -282,9 +291,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(likely(a.type == ltFloat)){
 			if(likely(b.type == ltFloat)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vFloat;
+				vmFloatResult(a.vFloat * b.vFloat);
 			} else if(likely(b.type == ltInt)){
-				ctx.valueStack[ctx.sp].vFloat *= b.vInt;
+				vmFloatResult(a.vFloat * b.vInt);
 			} else if(b.type != ltNil) {
 				lThrow(lValExceptionNonNumeric(b));
 			} else {
-- 
2.43.0


From 522e09d03fc07d27cd7d491aeddf5fc40dc629a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 04/69] fix: the division opcode divides in double precision,
 like the / function

---
 lib/vm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 6a05aa3..44aba15 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -311,13 +311,13 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		ctx.sp--;
 		if(likely(a.type == ltInt)){
 			if(likely(b.type == ltInt)){
-				lVal r = lValFloat((float)a.vInt / (float)b.vInt);
+				lVal r = lValFloat((double)a.vInt / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltFloat)){
-				lVal r = lValFloat((float)a.vInt / b.vFloat);
+				lVal r = lValFloat((double)a.vInt / b.vFloat);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
@@ -335,7 +335,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				}
 				ctx.valueStack[ctx.sp] = r;
 			} else if(likely(b.type == ltInt)){
-				const lVal r = lValFloat(a.vFloat / (float)b.vInt);
+				const lVal r = lValFloat(a.vFloat / (double)b.vInt);
 				if(unlikely(r.type == ltException)){
 					lThrow(r);
 				}
-- 
2.43.0


From dbad8e3b2d3e21e0976761e02e24a211d8ec8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 05/69] fix: shifts behave the same compiled and called, for
 every shift amount

---
 lib/arithmetic.c    |  8 ++------
 lib/nujel-private.h |  8 ++++++++
 lib/vm.c            | 15 +++++++++++++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index a2eaaea..44b3843 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -238,17 +238,13 @@ static lVal lnfPopCount(lVal a){
 static lVal lnfAsh(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv << sv) : (iv >> -sv));
+	return lValInt(lShiftLeft(a.vInt, b.vInt));
 }
 
 static lVal lnfBitShiftRight(lVal a, lVal b){
 	reqInt(a);
 	reqInt(b);
-	const u64 iv = a.vInt;
-	const i64 sv = b.vInt;
-	return lValInt((sv > 0) ? (iv >> sv) : (iv << -sv));
+	return lValInt(lShiftRight(a.vInt, b.vInt));
 }
 
 static lVal lnfAbs(lVal t){
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 543fe61..8d97fc5 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -330,6 +330,14 @@ extern lNFunc   lNFuncList[NFN_MAX];
 extern uint     lNFuncMax;
 
 
+/* Shift the bits of v, every bit that gets shifted beyond either end is lost */
+static inline i64 lShiftLeft(i64 v, i64 amount){
+	return ((amount < 0) || (amount > 63)) ? 0 : (i64)((u64)v << amount);
+}
+static inline i64 lShiftRight(i64 v, i64 amount){
+	return ((amount < 0) || (amount > 63)) ? 0 : (i64)((u64)v >> amount);
+}
+
 static inline int lClosureID(const lClosure *n){
 	return n - lClosureList;
 }
diff --git a/lib/vm.c b/lib/vm.c
index 44aba15..29208a8 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -403,11 +403,22 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	}\
 	} while(0)
 
+#define vmShiftOp(SHIFT) do{\
+	const lVal a = ctx.valueStack[ctx.sp-1];\
+	const lVal b = ctx.valueStack[ctx.sp];\
+	ctx.sp--;\
+	if(likely((a.type == ltInt) && (b.type == ltInt))){\
+		ctx.valueStack[ctx.sp].vInt = SHIFT(a.vInt, b.vInt);\
+	} else {\
+		lThrow(lValExceptionNonNumeric(b));\
+	}\
+	} while(0)
+
 	vmcase(lopBitShiftLeft)
-		vmBinaryIntegerOp(<<);
+		vmShiftOp(lShiftLeft);
 		vmbreak;
 	vmcase(lopBitShiftRight)
-		vmBinaryIntegerOp(>>);
+		vmShiftOp(lShiftRight);
 		vmbreak;
 	vmcase(lopBitAnd)
 		vmBinaryIntegerOp(&);
-- 
2.43.0


From fa711430c69d370f6fd538735891ae3a41cead13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 06/69] fix: odd? recognizes negative odd numbers

---
 stdlib/core/predicates.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/predicates.nuj b/stdlib/core/predicates.nuj
index 6564935..cabe1a8 100644
--- a/stdlib/core/predicates.nuj
+++ b/stdlib/core/predicates.nuj
@@ -22,7 +22,7 @@
 
 (defn odd? (a)
       "Predicate that returns #t if a is odd"
-      (= (rem (int a) 2) 1))
+      (not= (rem (int a) 2) 0))
 
 (defn even? (a)
       "Predicate that returns #t if a is even"
-- 
2.43.0


From 5c6962c334df94f2a9a97eafcce9922b930ea2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 07/69] fix: tree/equal? compares contents, not the shape
 insertion order left behind

---
 stdlib/collections/tree.nuj | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/stdlib/collections/tree.nuj b/stdlib/collections/tree.nuj
index eb3abcc..7d9183f 100644
--- a/stdlib/collections/tree.nuj
+++ b/stdlib/collections/tree.nuj
@@ -30,14 +30,10 @@
       "Compares two trees for equality"
       (if (and (tree? a)
                (tree? b))
-          (and (= (:key* a)
-                  (:key* b))
-               (equal? (:value* a)
-                       (:value* b))
-               (tree/equal? (:left* a)
-                            (:left* b))
-               (tree/equal? (:right* a)
-                            (:right* b)))
+          (and (equal? (:keys a)
+                       (:keys b))
+               (equal? (:values a)
+                       (:values b)))
           (equal? a b)))
 
 (defn tree/reduce (l o s)
-- 
2.43.0


From 12e48f6384e33b79e8e1d23ac0dd980043c7c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 08/69] fix: the integer-only arithmetic functions reject
 values that are not integers

---
 lib/arithmetic.c | 14 +++++++++++---
 lib/vm.c         |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index 44b3843..fd907ba 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -170,25 +170,31 @@ static lVal lnfPow(lVal a, lVal b){
 }
 
 static lVal lnfIncAstI(lVal a){
-	if(unlikely(a.type == ltNil)){
-		return lValExceptionNonNumeric(a);
-	}
+	reqInt(a);
 	return lValInt(a.vInt + 1);
 }
 
 static lVal lnfAddAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt + b.vInt);
 }
 
 static lVal lnfSubAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt - b.vInt);
 }
 
 static lVal lnfMulAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	return lValInt(a.vInt * b.vInt);
 }
 
 static lVal lnfDivAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
@@ -197,6 +203,8 @@ static lVal lnfDivAstI(lVal a, lVal b){
 }
 
 static lVal lnfModAstI(lVal a, lVal b){
+	reqInt(a);
+	reqInt(b);
 	if(unlikely(b.vInt == 0)){
 		return lValException(lSymDivisionByZero, "Can't divide by zero", a);
 	}
diff --git a/lib/vm.c b/lib/vm.c
index 29208a8..dcb942b 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -600,6 +600,8 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopIncInt)
 		if(likely(ctx.valueStack[ctx.sp].type == ltInt)){
 			ctx.valueStack[ctx.sp].vInt++;
+		} else {
+			lThrow(lValExceptionType(ctx.valueStack[ctx.sp], ltInt));
 		}
 		vmbreak;
 	vmcase(lopCar)
-- 
2.43.0


From b1ea1302f51232eb0cd57c95f23a070e230b1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 09/69] fix: + and rem treat a missing operand the same
 compiled and called

---
 lib/arithmetic.c | 12 +++++++++---
 lib/vm.c         |  4 ++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/arithmetic.c b/lib/arithmetic.c
index fd907ba..3ee1b71 100644
--- a/lib/arithmetic.c
+++ b/lib/arithmetic.c
@@ -10,7 +10,9 @@ static lVal lValExceptionFloat(lVal v){
 
 static lVal lnfAdd(lVal a, lVal b){
 	if(unlikely(a.type == ltNil)){return lValInt(0);}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){
+		return ((a.type == ltInt) || (a.type == ltFloat)) ? a : lValExceptionNonNumeric(a);
+	}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 	default:
@@ -116,8 +118,12 @@ static lVal lnfDiv(lVal a, lVal b){
 }
 
 static lVal lnfRem(lVal a, lVal b){
-	if(unlikely(a.type == ltNil)){return b;}
-	if(unlikely(b.type == ltNil)){return a;}
+	if(unlikely(b.type == ltNil)){
+		return ((a.type == ltInt) || (a.type == ltFloat) || (a.type == ltNil)) ? a : lValExceptionNonNumeric(a);
+	}
+	if(unlikely(a.type == ltNil)){
+		return ((b.type == ltInt) || (b.type == ltFloat)) ? b : lValExceptionNonNumeric(b);
+	}
 	lType t = lTypecast(a.type, b.type);
 	switch(t){
 		default:
diff --git a/lib/vm.c b/lib/vm.c
index dcb942b..668e97f 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -389,6 +389,10 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 			}
 		} else if(unlikely(a.type != ltNil)){
 			lThrow(lValExceptionNonNumeric(b));
+		} else if((b.type == ltInt) || (b.type == ltFloat)){
+			ctx.valueStack[ctx.sp] = b;
+		} else if(unlikely(b.type != ltNil)){
+			lThrow(lValExceptionNonNumeric(b));
 		}
 		vmbreak; }
 
-- 
2.43.0


From b2a3f05041a604f3f339ca383345cf83cbc3f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 10/69] fix: int raises an exception for floats beyond the
 range of integers

---
 lib/core-operators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index e9d0805..1522e7e 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -72,6 +72,9 @@ static lVal lnfInt(lVal v){
 	if(likely(v.type == ltInt)){
 		return v;
 	} else if(likely(v.type == ltFloat)){
+		if(unlikely((v.vFloat < -9223372036854775808.0) || (v.vFloat >= 9223372036854775808.0))){
+			return lValException(lSymOutOfBounds, "This float doesn't fit into an :int", v);
+		}
 		return lValInt(v.vFloat);
 	} else {
 		return lValExceptionType(v, ltInt);
-- 
2.43.0


From 685ba59ec5455d9c9889bd9a3a5919525dd68d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 11/69] fix: the float literals 0.0 and -0.0 stay distinct
 within one function

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index 7bf7393..b4a39c7 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -448,7 +448,8 @@
                  (defn assemble/add-literal (lit lit-arr)
                        (when (>= (:length lit-arr) 65535)
                          (exception :out-of-bounds "Can only store up to 255 literals per bytecode-arr" code))
-                       (when (not= (:type-name lit) :pair)
+                       (when (and (not= (:type-name lit) :pair)
+                                  (not= (:type-name lit) :float)) ; 0.0 and -0.0 are equal, but not the same
                          (dotimes (i (:length lit-arr))
                            (when (equal? (ref lit-arr i) lit)
                              (return (literal-index->bytecode-op i)))))
-- 
2.43.0


From 5b94090ffcf5c9afd726f59950c4d2ac30f7db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 12/69] fix: ref and set! check the whole index, not just its
 lower 32 bits

---
 lib/generic.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/generic.c b/lib/generic.c
index 83ece98..316bb2b 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -45,22 +45,22 @@ lVal lGenericRef(lVal col, lVal key){
 	switch(col.type){
 	case ltPair:
 		reqNaturalInt(key);
-		for(int i=0;i<key.vInt;i++){
+		for(i64 i=0;(i<key.vInt) && (col.type == ltPair);i++){
 			col = lCdr(col);
 		}
 		return lCar(col);
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		return lValInt(arr->data[i]); }
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
@@ -163,8 +163,8 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltBytecodeArr: {
 		const lBytecodeArray *arr = col.vBytecodeArr;
 		reqNaturalInt(key);
-		const int i = key.vInt;
-		if(unlikely((arr->data + i) >= arr->dataEnd)){
+		const i64 i = key.vInt;
+		if(unlikely(i >= (arr->dataEnd - arr->data))){
 			return lValException(lSymOutOfBounds, "(ref) bytecode-array index provided is out of bounds", col);
 		}
 		if(unlikely((v.type != ltInt))){
@@ -175,7 +175,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 	case ltArray: {
 		lArray *arr = col.vArray;
 		reqNaturalInt(key);
-		const int i = key.vInt;
+		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
 			return lValException(lSymOutOfBounds, "(ref) array index provided is out of bounds", col);
 		}
-- 
2.43.0


From d521da61179db1e177c0bee4a4db670d4b4658d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 13/69] fix: set! and :length! refuse to change immutable
 arrays, buffers and views

---
 lib/array.c   | 3 +++
 lib/generic.c | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/lib/array.c b/lib/array.c
index 68bd2c2..e90f5bf 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -12,6 +12,9 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	reqNaturalInt(newLength);
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
+	if(unlikely(arr->flags & ARRAY_IMMUTABLE)){
+		return lValException(lSymTypeError, ":length! requires a mutable array", self);
+	}
 
 	lVal *newData = realloc(arr->data,length * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
diff --git a/lib/generic.c b/lib/generic.c
index 316bb2b..ea60011 100644
--- a/lib/generic.c
+++ b/lib/generic.c
@@ -105,6 +105,9 @@ static lVal lBufferViewSet(lVal car, size_t i, lVal v){
 	if(unlikely(buf == NULL)){
 		return lValException(lSymTypeError, "Can't ref that", car);
 	}
+	if(unlikely(car.vBufferView->flags & BUFFER_VIEW_IMMUTABLE)){
+		return lValException(lSymTypeError, "Can only set! mutable buffer views", car);
+	}
 	if(unlikely(i >= length)){
 		return lValException(lSymOutOfBounds, "ref - index provided is out of bounds", car);
 	}
@@ -174,6 +177,9 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		return col; }
 	case ltArray: {
 		lArray *arr = col.vArray;
+		if(unlikely(arr->flags & ARRAY_IMMUTABLE)){
+			return lValException(lSymTypeError, "Can only set! mutable arrays", col);
+		}
 		reqNaturalInt(key);
 		const i64 i = key.vInt;
 		if(unlikely(arr->length <= i)){
@@ -182,6 +188,7 @@ lVal lGenericSet(lVal col, lVal key, lVal v){
 		arr->data[i] = v;
 		return col; }
 	case ltBuffer: {
+		reqMutableBuffer(col);
 		char *buf  = col.vBuffer->buf;
 		const size_t len = col.vBuffer->length;
 		reqNaturalInt(key);
-- 
2.43.0


From e286fca5658301adf4ff9aef4028375c277d03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 14/69] fix: index-of and last-index-of stay within the string
 and compare every byte

---
 lib/string.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 6c5036c..9ae321f 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -80,7 +80,7 @@ static lVal lnmStringCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vString);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, (((stop.type == ltInt)) ? MAX(0, stop.vInt) : len)) - off;
 
 	if(unlikely(len <= 0)){return lValString("");}
 	return lValStringLen(&buf[off], len);
@@ -96,15 +96,15 @@ static lVal lnmStringIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, 0);
+	const i64 pos = MAX(0, castToInt(start, 0));
 	if(pos > haystackLength-needleLength){return lValInt(-3);}
 	/* Empty strings just return the current position, this is so we can
 	 * split an empty string into each character by passing an empty string
 	 */
 	if(needleLength <= 0){return lValInt(pos);}
 
-	for(const char *s = &haystack[pos]; *s != 0; s++){
-		if(strncmp(s,needle,needleLength)){continue;}
+	for(const char *s = &haystack[pos]; s <= &haystack[haystackLength-needleLength]; s++){
+		if(memcmp(s,needle,needleLength)){continue;}
 		return lValInt(s-haystack);
 	}
 	return lValInt(-1);
@@ -120,10 +120,11 @@ static lVal lnmStringLastIndexOf(lVal self, lVal search, lVal start){
 	const i64 needleLength   = search.vString->length;
 
 	if(needleLength <= 0){return lValInt(-1);}
-	const i64 pos = castToInt(start, haystackLength - needleLength);
+	const i64 pos = MIN(castToInt(start, haystackLength), haystackLength - needleLength);
+	if(pos < 0){return lValInt(-1);}
 
 	for(const char *s = &haystack[pos]; s >= haystack; s--){
-		if(strncmp(s,needle,needleLength)){continue;}
+		if(memcmp(s,needle,needleLength)){continue;}
 		return lValInt(s-haystack);
 	}
 	return lValInt(-1);
-- 
2.43.0


From 4c6daaa64a5601c559b9a6091a7743e785987b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 15/69] fix: array/new counts nil elements, arrays neither
 truncate huge sizes nor keep freed storage

---
 lib/array.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/array.c b/lib/array.c
index e90f5bf..ea5416d 100644
--- a/lib/array.c
+++ b/lib/array.c
@@ -12,13 +12,15 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	reqNaturalInt(newLength);
 	const size_t length = newLength.vInt;
 	lArray *arr = self.vArray;
+	if(unlikely(newLength.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(:length! Array) that array would be too big", newLength);
+	}
 	if(unlikely(arr->flags & ARRAY_IMMUTABLE)){
 		return lValException(lSymTypeError, ":length! requires a mutable array", self);
 	}
 
-	lVal *newData = realloc(arr->data,length * sizeof(lVal));
+	lVal *newData = realloc(arr->data,(length + 1) * sizeof(lVal));
 	if (unlikely(newData == NULL)) {
-		free(newData);
 		return lValException(lSymOOM, "(:length Array) couldn't allocate its array", self);
 	}
 	arr->data = newData;
@@ -29,13 +31,14 @@ static lVal lnmArrayLengthSet(lVal self, lVal newLength){
 	return self;
 }
 
-/* Return the length of the list V */
+/* Return the length of the list V, (#nil) being what the reader returns for
+ * an empty list */
 static int lListLength(lVal v){
 	int i = 0;
-	for(lVal n = v;(n.type == ltPair) && (n.vList->car.type != ltNil); n = n.vList->cdr){
+	for(lVal n = v;n.type == ltPair; n = n.vList->cdr){
 		i++;
 	}
-	return i;
+	return ((i == 1) && (v.vList->car.type == ltNil)) ? 0 : i;
 }
 
 lVal lnfArrNew(lVal v){
@@ -69,6 +72,9 @@ static lVal lnmArrayToBytecodeArray(lVal self, lVal aLiterals){
 static lVal lnmArrayAllocate(lVal self, lVal size){
 	(void)self;
 	reqNaturalInt(size);
+	if(unlikely(size.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(:alloc Array) that array would be too big", size);
+	}
 	lVal r = lValAlloc(ltArray, lArrayAlloc(size.vInt));
 	if(unlikely(size.vInt && (r.vArray->data == NULL))){
 		return lValException(lSymOOM, "(:alloc Array) couldn't allocate its array", size);
-- 
2.43.0


From ae4eb2f9611d7d71dcc4c1fd065513a3e107d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 16/69] fix: buffer operations check sizes and offsets without
 truncating them

---
 lib/buffer.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 2afba45..075cb63 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -33,7 +33,14 @@ size_t lBufferViewLength(const lBufferView *v){
 
 static lVal lnfBufferAllocate(lVal a) {
 	reqNaturalInt(a);
+	if(unlikely(a.vInt > INT32_MAX)){
+		return lValException(lSymOOM, "(buffer/allocate) that buffer would be too big", a);
+	}
 	lBuffer *buf = lBufferAlloc(a.vInt, false);
+	if(unlikely(buf->buf == NULL)){
+		buf->length = 0;
+		return lValException(lSymOOM, "(buffer/allocate) couldn't allocate a buffer", a);
+	}
 	return lValAlloc(ltBuffer, buf);
 }
 
@@ -53,9 +60,9 @@ static lVal bufferFromPointer(bool immutable, const void *data, size_t length){
 static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength){
 	reqMutableBuffer(aDest);
 	reqNaturalInt(aDestOffset);
-	const int destOffset = aDestOffset.vInt;
+	const i64 destOffset = aDestOffset.vInt;
 	const void *buf = NULL;
-	int length = 0;
+	i64 length = 0;
 
 	switch(vSrc.type){
 	case ltString:
@@ -68,10 +75,10 @@ static lVal lnfBufferCopy(lVal aDest, lVal vSrc, lVal aDestOffset, lVal aLength)
 	if(unlikely((buf == NULL) || (length < 0))){
 		return lValException(lSymTypeError, "Can't copy from that", vSrc);
 	}
-	if(unlikely(((length + destOffset) > aDest.vBuffer->length) || (length > vSrc.vBuffer->length))){
+	if(unlikely((destOffset > aDest.vBuffer->length) || (length > aDest.vBuffer->length - destOffset) || (length > vSrc.vBuffer->length))){
 		return lValException(lSymOutOfBounds, "Can't fit everything in that buffer", vSrc);
 	}
-	memcpy(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
+	memmove(&((u8*)aDest.vBuffer->buf)[destOffset], buf, length);
 	return aDest;
 }
 
@@ -79,6 +86,9 @@ static lVal lnfBufferToString(lVal a, lVal aLength, lVal aOffset){
 	reqBuffer(a);
 	const i64 length = MIN(a.vBuffer->length, castToInt(aLength, a.vBuffer->length));
 	i64 offset = aOffset.type == ltInt ? aOffset.vInt : 0;
+	if(unlikely(offset < 0)){
+		return lValException(lSymOutOfBounds, "Offset can't be negative", aOffset);
+	}
 	if(unlikely(offset > length)){
 		return lValString("");
 	}
@@ -133,11 +143,14 @@ static lVal lnmBufferLengthSet(lVal self, lVal newLength){
 	lBuffer *buf = self.vBuffer;
 
 	reqNaturalInt(newLength);
+	if(unlikely(newLength.vInt > INT32_MAX)){
+		return lValException(lSymOOM, ":length! that buffer would be too big", newLength);
+	}
 	const int length = newLength.vInt;
 	if(length < buf->length){
 		return lValException(lSymOutOfBounds, "Buffers can only grow, not shrink.", self);
 	}
-	void *nBuf = realloc(buf->buf, length);
+	void *nBuf = realloc(buf->buf, MAX(1, length));
 	if (unlikely(nBuf == NULL)) {
 		return lValException(lSymOOM, "(buffer/length!) couldn't allocate its buffer", self);
 	}
@@ -165,7 +178,7 @@ static lVal lnmBufferCut(lVal self, lVal start, lVal stop){
 	slen = len = lBufferLength(self.vBuffer);
 	reqInt(start);
 	i64 off = MAX(0, start.vInt);
-	len = MIN(slen - off, (((stop.type == ltInt)) ? stop.vInt : len) - off);
+	len = MIN(slen, (((stop.type == ltInt)) ? MAX(0, stop.vInt) : len)) - off;
 
 	if(unlikely(len <= 0)){
 		return lnfBufferAllocate(lValInt(0));
-- 
2.43.0


From 0360f1ad97c011d33f32768003e575d18e4d1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 17/69] fix: printing a large float does not overflow its
 buffer

---
 lib/core-operators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core-operators.c b/lib/core-operators.c
index 1522e7e..c38170e 100644
--- a/lib/core-operators.c
+++ b/lib/core-operators.c
@@ -144,7 +144,7 @@ static lVal lnfIntToString(lVal a){
 }
 
 static lVal lnfFloatToString(lVal a){
-	char buf[32];
+	char buf[384];
 	int snret = snprintf(buf,sizeof(buf),"%f", a.vFloat);
 	if(snret < 0){
 		return lValException(lSymIOError, "Unprintable flonum", a);
-- 
2.43.0


From 9b054466c412c7abf54627a4da0051157045abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 18/69] fix: rotating a tree to the right computes the height
 of the lowered node first

---
 lib/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tree.c b/lib/tree.c
index a9a5cca..5e61b84 100644
--- a/lib/tree.c
+++ b/lib/tree.c
@@ -56,8 +56,8 @@ static lTree *lTreeRotateRight(lTree *y){
 	x->right = y;
 	y->left = T2;
 
-	x->height = lTreeCalcHeight(x);
 	y->height = lTreeCalcHeight(y);
+	x->height = lTreeCalcHeight(x);
 
 	return x;
 }
-- 
2.43.0


From 567fbb105726cd0a4947f00b381c9ee9af0187c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 19/69] fix: list? recognizes improper lists that end in #f

---
 stdlib/collections/lists.nuj | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/stdlib/collections/lists.nuj b/stdlib/collections/lists.nuj
index 8cf4b7d..edc5e12 100644
--- a/stdlib/collections/lists.nuj
+++ b/stdlib/collections/lists.nuj
@@ -104,11 +104,9 @@
 (defn list? (a)
       "Return #t is A is a proper list"
       (when-not a (return #f))
-      (while a
-             (when-not (pair? a)
-                       (return #f))
+      (while (pair? a)
              (cdr! a))
-      (return #t))
+      (return (nil? a)))
 
 (defn list/equal? (a b)
       "#t if A and B are equal"
-- 
2.43.0


From 3998220ba5fe6d0b2017608b6727bbc6c56e545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:17 +0000
Subject: [PATCH 20/69] fix: equal? tells a list from a longer one that
 continues with nil

---
 stdlib/collections/lists.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib/collections/lists.nuj b/stdlib/collections/lists.nuj
index edc5e12..618f4fb 100644
--- a/stdlib/collections/lists.nuj
+++ b/stdlib/collections/lists.nuj
@@ -111,7 +111,8 @@
 (defn list/equal? (a b)
       "#t if A and B are equal"
       (if (pair? a)
-          (and (list/equal? (car a) (car b))
+          (and (pair? b)
+               (list/equal? (car a) (car b))
                (list/equal? (cdr a) (cdr b)))
           (equal? a b)))
 
-- 
2.43.0


From e34cedfd3660b02f578a1b2332d976d46a1e10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:30 +0000
Subject: [PATCH 21/69] fix: try as an argument left its handler on the stack
 after catching

---
 lib/vm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 668e97f..452c897 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -634,14 +634,16 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	vmcase(lopClosurePop)
 		c = ctx.closureStack[--ctx.csp];
 		vmbreak;
-	vmcase(lopTry)
+	vmcase(lopTry) {
+		// The handler must not be part of the stack we return to
+		const lVal handler = ctx.valueStack[ctx.sp--];
 		lStoreInClosure(lBytecodeGetOffset16(ip)-1);
 
 		c = lClosureNew(c, closureTry);
-		c->exceptionHandler = ctx.valueStack[ctx.sp--];
+		c->exceptionHandler = handler;
 		ctx.closureStack[++ctx.csp] = c;
 		ip+=2;
-		vmbreak;
+		vmbreak; }
 	vmcase(lopThrow) {
 		lVal v = ctx.valueStack[ctx.sp];
 		if(likely(v.type == ltPair)){
-- 
2.43.0


From 637aabbb09380099163015567682aebbbc98a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 22/69] fix: evaluating within a closure that is in use lost
 the rest of its code

---
 lib/nujel-private.h |  1 +
 lib/vm.c            | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index 8d97fc5..a970cd0 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -162,6 +162,7 @@ typedef enum closureType {
 	closureCall = 1,
 	closureLet = 2,
 	closureTry = 3,
+	closureSaved = 4,
 } closureType;
 
 
diff --git a/lib/vm.c b/lib/vm.c
index 452c897..1bd74ae 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -85,6 +85,25 @@ static inline lClosure *funCallClosure(lVal lambda) {
 	return tmpc;
 }
 
+/* Evaluating something directly within a closure overwrites what that closure
+ * needs to continue, it might be in the midst of a call though, so we put that
+ * on the stack until the evaluation is done. */
+static lClosure *lClosureSave(lClosure *c){
+	lClosure *ret = lClosureNew(c, closureSaved);
+	ret->text = c->text;
+	ret->ip   = c->ip;
+	ret->sp   = c->sp;
+	return ret;
+}
+
+static inline void lClosureRestoreSaved(const lClosure *saved){
+	if(unlikely(saved->type == closureSaved)){
+		saved->parent->text = saved->text;
+		saved->parent->ip   = saved->ip;
+		saved->parent->sp   = saved->sp;
+	}
+}
+
 #define lStoreInClosure(ipOffset) do {\
 	c->ip = ip + (ipOffset);\
 	c->sp = ctx.sp;\
@@ -671,6 +690,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 				goto topLevelReturn;
 			}
 			c = ctx.closureStack[--ctx.csp];
+			lClosureRestoreSaved(c);
 		}
 
 		lVal cargs = lCons(exceptionThrownValue, NIL);
@@ -745,6 +765,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lStoreInClosure(0);
 
 		if(unlikely(curOp == lopMutableEval)){
+			ctx.closureStack[++ctx.csp] = lClosureSave(env.vClosure);
 			c = ctx.closureStack[++ctx.csp] = env.vClosure;
 		} else {
 			c = ctx.closureStack[++ctx.csp] = lClosureNew(env.vClosure, closureCall);
@@ -900,9 +921,14 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		if(likely(ctx.csp > 0)){
 			while(ctx.closureStack[ctx.csp]->type != closureCall){
 				if(unlikely(--ctx.csp <= 0)){goto topLevelReturn;}
+				lClosureRestoreSaved(ctx.closureStack[ctx.csp]);
 			}
 			lVal ret = ctx.valueStack[ctx.sp];
 			c   = ctx.closureStack[--ctx.csp];
+			if(unlikely(c->type == closureSaved)){
+				lClosureRestoreSaved(c);
+				c = ctx.closureStack[--ctx.csp];
+			}
 			lRestoreFromClosure();
 			ctx.text = ops;
 			ctx.sp = c->sp;
-- 
2.43.0


From 002e0313f29fccd8abf2d4570339cd19e9af02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 23/69] fix: running out of symbol slots ended the process
 although they could be reclaimed

---
 lib/symbol.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index cfb1247..d4ea5f1 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -213,6 +213,9 @@ uint lSymbolIndexSlot(const char *str){
 			h = 0;
 		}
 	} while (h != hInitial);
+	if(likely(firstTomb != 0xffffffff)){
+		return firstTomb;
+	}
 	exit(111);
 	return 0;
 }
@@ -234,7 +237,7 @@ lSymbol *lSymS(const char *str){
 			ret = &lSymbolList[lSymbolMax++];
 		}
 	}
-	lSymbolActive++;
+	if(unlikely((SYM_MAX - (++lSymbolActive) < 128))){lGCShouldRunSoon = true;}
 	strncpy(ret->c, str, sizeof(ret->c));
 	ret->c[sizeof(ret->c)-1] = 0;
 	symIndex = lSymIndex(ret);
-- 
2.43.0


From ec95fbfb2ded953591ac885c5cec05bcc61bae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 24/69] fix: symbols with names too long to store were not
 interned

---
 lib/symbol.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/symbol.c b/lib/symbol.c
index d4ea5f1..81f1c95 100644
--- a/lib/symbol.c
+++ b/lib/symbol.c
@@ -179,8 +179,13 @@ lSymbol *lSymSM(const char *str){
 	return lRootsSymbolPush(lSymS(str));
 }
 
+/* Only the part of the name we actually store may influence the hash */
 static inline u32 lHashSymStr(const char *str){
-	return fasthash32(str, strlen(str), 0x5b0a159d9eac0381ULL);
+	size_t len = 0;
+	while((len < sizeof(lSymbolList[0].c)-1) && str[len]){
+		len++;
+	}
+	return fasthash32(str, len, 0x5b0a159d9eac0381ULL);
 }
 
 // Probes the symbol index and returns the slot where STR is stored.  If STR is
-- 
2.43.0


From 5e1a990c61209a5aa7499b3b95813f91890c796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 25/69] fix: the reader reports errors within containers and
 quotes, and missing or surplus values

---
 lib/reader.c | 108 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 33 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index c3abef4..a7ae2db 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -23,11 +23,18 @@ static inline bool isComment(lVal v){
 	return v.type == ltComment;
 }
 
+/* A single dot, as opposed to one that's part of a symbol */
+static inline bool isDot(const lReadContext *s){
+	const u8 next = s->data[1];
+	return (s->data[0] == '.') && ((next == 0) || isspace(next) || isnonsymbol(next));
+}
+
 static inline lVal lValComment(){
 	return lValAlloc(ltComment, NULL);
 }
 
 static lVal lReadValue(lReadContext *s);
+static lVal lReadDatum(lReadContext *s);
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator);
 
 static lVal lValExceptionReaderCustom(lReadContext *s, const char *msg, const lSymbol *customError){
@@ -374,7 +381,9 @@ static lVal lParseBuffer(lReadContext *s){
 }
 
 static lVal lParseSpecial(lReadContext *s){
-	if(s->data >= s->bufEnd){return NIL;}
+	if(unlikely(s->data >= s->bufEnd)){
+		return lValExceptionReader(s, "Unexpected end of special lit.");
+	}
 	switch(*s->data++){
 	default:
 		return lValExceptionReaderStartEnd(s, "Wrong char in special lit.");
@@ -396,12 +405,27 @@ static lVal lParseSpecial(lReadContext *s){
 		return NIL;
 	case 't': return lValBool(true);
 	case 'f': return lValBool(false);
-	case '#':
+	case '#':{
+		if(unlikely((s->data >= s->bufEnd) || (*s->data != '('))){
+			return lValExceptionReader(s, "Array literals need an opening bracket");
+		}
 		s->data++;
-		return lnfArrNew(lReadList(s, false, ')'));
+		const lVal list = lReadList(s, false, ')');
+		return unlikely(list.type == ltException) ? list : lnfArrNew(list);
+	}
 	case '@':{
+		if(unlikely((s->data >= s->bufEnd) || (*s->data != '('))){
+			return lValExceptionReader(s, "Tree literals need an opening bracket");
+		}
 		s->data++;
-		lVal ret = lnfTreeNew(lReadList(s,false,')'));
+		const lVal list = lReadList(s, false, ')');
+		if(unlikely(list.type == ltException)){
+			return list;
+		}
+		lVal ret = lnfTreeNew(list);
+		if(unlikely(ret.type == ltException)){
+			return ret;
+		}
 		if(ret.vTree->root){
 			ret.vTree->root->flags |= TREE_IMMUTABLE;
 		}
@@ -409,8 +433,23 @@ static lVal lParseSpecial(lReadContext *s){
 	}}
 }
 
+/* Read the value that has to follow, skipping whitespace and comments in front of it */
+static lVal lReadDatum(lReadContext *s){
+	while(1){
+		lStringAdvanceToNextCharacter(s);
+		if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || isClosingChar(*s->data) || isDot(s))){
+			return lValExceptionReader(s, "Missing value");
+		}
+		const lVal v = lReadValue(s);
+		if(!isComment(v)){
+			return v;
+		}
+	}
+}
+
 static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 	lVal v = NIL, ret = NIL;
+	bool dotted = false;
 	while(1){
 		lStringAdvanceToNextCharacter(s);
 
@@ -433,24 +472,20 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 		}else if(unlikely(isClosingChar(c))){
 			return lValExceptionReader(s, "Unmatched closing char");
 		}else{
-			const u8 next = s->data[1];
-			if((c == '.') && (isspace(next) || isnonsymbol(next))){
+			if(isDot(s)){
 				if(unlikely(v.type == ltNil)){
 					return lValExceptionReader(s, "Missing car in dotted pair");
 				}
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "Can't have a second dot there");
+				}
 				s->data++;
-				lVal nv;
-				do {
-					if(unlikely((s->data >= s->bufEnd) || (*s->data == 0) || (*s->data == ')'))){
-						return lValExceptionReader(s, "Missing cdr in dotted pair");
-					}
-					lStringAdvanceToNextCharacter(s);
-					nv = lReadValue(s);
-					if(unlikely(nv.type == ltException)){
-						return nv;
-					}
-				} while(isComment(nv));
-				v.vList->cdr = isComment(nv) ? NIL : nv;
+				const lVal nv = lReadDatum(s);
+				if(unlikely(nv.type == ltException)){
+					return nv;
+				}
+				v.vList->cdr = nv;
+				dotted = true;
 				continue;
 			}else{
 				lVal nv = lReadValue(s);
@@ -458,6 +493,9 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 				if(unlikely(nv.type == ltException)){
 					return nv;
 				}
+				if(unlikely(dotted)){
+					return lValExceptionReader(s, "Only a single value can follow a dot");
+				}
 				if(v.type == ltNil){
 					v = ret = lCons(nv, NIL);
 				}else{
@@ -470,7 +508,19 @@ static lVal lReadList(lReadContext *s, bool rootForm, char terminator){
 }
 
 static lVal lReadQuote(lReadContext *s, lSymbol *carSym){
-	return lCons(lValSymS(carSym), lCons(lReadValue(s), NIL));
+	const lVal v = lReadDatum(s);
+	if(unlikely(v.type == ltException)){
+		return v;
+	}
+	return lCons(lValSymS(carSym), lCons(v, NIL));
+}
+
+static lVal lReadConstructor(lReadContext *s, lSymbol *carSym, char terminator){
+	const lVal args = lReadList(s, false, terminator);
+	if(unlikely(args.type == ltException)){
+		return args;
+	}
+	return lCons(lValSymS(carSym), args);
 }
 
 static lVal lReadValue(lReadContext *s){
@@ -487,10 +537,10 @@ static lVal lReadValue(lReadContext *s){
 		return lReadList(s,false,')');
 	case '[':
 		s->data++;
-		return lCons(lValSymS(symArr), lReadList(s,false, ']'));
+		return lReadConstructor(s, symArr, ']');
 	case '{':
 		s->data++;
-		return lCons(lValSymS(symTreeNew), lReadList(s,false,'}'));
+		return lReadConstructor(s, symTreeNew, '}');
 	case '~':
 		s->data++;
 		if(*s->data == '@'){
@@ -509,23 +559,15 @@ static lVal lReadValue(lReadContext *s){
 		return lParseString(s);
 	case '#':
 		s->data++;
-		if(s->data >= s->bufEnd){
-			return NIL;
-		}else if(*s->data == ';'){
+		if((s->data < s->bufEnd) && (*s->data == ';')){
 			++s->data;
-			if((s->data < s->bufEnd) && (*s->data == '(')){
-				s->data++;
-				lReadList(s,false,')');
-				return lValComment();
-			}else{
-				lReadValue(s);
-				return lValComment();
-			}
+			const lVal v = lReadDatum(s);
+			return unlikely(v.type == ltException) ? v : lValComment();
 		}
 		return lParseSpecial(s);
 	case ';':
 		lStringAdvanceToNextLine(s);
-		return lReadValue(s);
+		return lValComment();
 	default:
 		if((isdigit((u8)c)) || ((c == '-') && isdigit(((u8 *)s->data)[1]))){
 			return lParseNumber(s, 10, 18);
-- 
2.43.0


From 7fb8eeccbf7c8ab1f4a1a48c9e81e15573fca26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 26/69] fix: nested and unterminated block comments end where
 they should

---
 lib/reader.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index a7ae2db..0713ba2 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -81,16 +81,19 @@ static void lStringAdvanceToNextLine(lReadContext *s){
 }
 
 static void lStringAdvanceUntilEndOfBlockComment(lReadContext *s){
-	const char *end = s->bufEnd-1;
-	for(;(s->data < end);s->data++){
+	size_t depth = 1;
+	while((s->bufEnd - s->data) >= 2){
 		if((s->data[0] == '#') && (s->data[1] == '|')){
 			s->data+=2;
-			lStringAdvanceUntilEndOfBlockComment(s);
+			depth++;
 		}else if((s->data[0] == '|') && (s->data[1] == '#')){
 			s->data+=2;
-			return;
+			if(--depth == 0){return;}
+		}else{
+			s->data++;
 		}
 	}
+	s->data = s->bufEnd;
 }
 
 /* Parse the string literal in s and return the resulting ltString lVal */
-- 
2.43.0


From 000436693044b9c79ef583b3263321a34873acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 27/69] fix: long string literals do not gain a byte,
 unterminated ones do not report stale bytes

---
 lib/reader.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 0713ba2..438ea21 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -113,7 +113,7 @@ static lVal lParseString(lReadContext *s){
 			if(buf == NULL){
 				exit(21);
 			}
-			b = &buf[i];
+			b = &buf[i-1];
 		}
 		if(unlikely(*s->data == '\\')){
 			s->data++;
@@ -159,17 +159,13 @@ static lVal lParseString(lReadContext *s){
 			s->data++;
 			return lValAlloc(ltString, lStringNew(buf,b-buf));
 		}else if(unlikely(*s->data == 0)){
-			if (likely(i < bufSize)) {
-				buf[i] = 0;
-			}
+			*b = 0;
 			return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 		}else{
 			*b++ = *s->data++;
 		}
 	}
-	if (likely(i < bufSize)) {
-		buf[i] = 0;
-	}
+	*b = 0;
 	return lValException(lSymReadError, "Can't find closing \"", lValString(buf));
 }
 
-- 
2.43.0


From eb1792df5c59401fd01e05ac4ef3a219213124a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 28/69] fix: character literals at the end of the text and
 beyond ASCII

---
 lib/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 438ea21..68b96fc 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -298,7 +298,10 @@ static lVal lParseNumber(lReadContext *s, int base, int maxDigits){
 }
 
 static lVal lParseCharacter(lReadContext *s){
-	int ret = s->data[0];
+	if(unlikely(s->data >= s->bufEnd)){
+		return lValExceptionReader(s, "Unexpected end of character literal");
+	}
+	int ret = (u8)s->data[0];
 	if((s->data[0] == 'B') && (s->data[1] == 'a')){ret = '\b';}
 	else if((s->data[0] == 'T') && (s->data[1] == 'a')){ret = '\t';}
 	else if((s->data[0] == 'L') && (s->data[1] == 'i')){ret = '\n';}
-- 
2.43.0


From 9823beaf75d73ef166c8111903abae93234aaef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 29/69] fix: fractions of many nines are not read as a tenth of
 their value

---
 lib/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 68b96fc..08684b0 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -61,7 +61,11 @@ static lVal lValExceptionReaderEnd(lReadContext *s, const char *start, const cha
 
 static double createFloat(i64 value, i64 mantissa, i64 mantissaLeadingZeroes){
 	if(mantissa == 0){return value;}
-	const double mant = mantissa * pow(10, -(floor(log10(mantissa)) + 1 + mantissaLeadingZeroes));
+	i64 digits = mantissaLeadingZeroes;
+	for(i64 v = mantissa; v != 0; v /= 10){
+		digits++;
+	}
+	const double mant = mantissa * pow(10, -digits);
 	return value + mant;
 }
 
-- 
2.43.0


From f16c8c7608f9b02b8515612b0483aefa8b566102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 30/69] fix: symbols too long to be read are an error instead
 of several symbols

---
 lib/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 08684b0..df7f125 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -208,7 +208,10 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 		return refVal;
 	}
 	const char *start = s->data;
-	for(i=0;i<(sizeof(buf)-1);i++){
+	for(i=0;;i++){
+		if(unlikely(i >= sizeof(buf)-1)){
+			return lValExceptionReaderEnd(s, start, "Symbol too long");
+		}
 		const char c = *s->data++;
 		if(c == ':'){
 			if(keyword){
-- 
2.43.0


From b46402e8f94e32ec40f09ef9810f3d5fef782180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 31/69] fix: reading deeply nested text raises an error instead
 of exhausting the stack

---
 lib/reader.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index df7f125..1d97cda 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -17,8 +17,12 @@
 
 typedef struct {
 	const char *buf, *bufEnd, *data;
+	uint depth;
 } lReadContext;
 
+/* How deeply values may be nested, so that we never run out of stack */
+#define READ_DEPTH_MAX (1<<12)
+
 static inline bool isComment(lVal v){
 	return v.type == ltComment;
 }
@@ -228,7 +232,13 @@ static lVal lParseSymbol(lReadContext *s, lVal refVal){
 			}
 		}
 		if(c == '.'){
-			return lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
+			if(unlikely(s->depth >= READ_DEPTH_MAX)){
+				return lValExceptionReader(s, "Nested too deeply");
+			}
+			s->depth++;
+			const lVal ret = lParseSymbol(s, lFinishSymbol(s, i, buf, start, keyword, refVal));
+			s->depth--;
+			return ret;
 		}
 		if((c == 0) || isspace((u8)c) || isnonsymbol(c)){
 			s->data--;
@@ -532,7 +542,7 @@ static lVal lReadConstructor(lReadContext *s, lSymbol *carSym, char terminator){
 	return lCons(lValSymS(carSym), args);
 }
 
-static lVal lReadValue(lReadContext *s){
+static lVal lReadValueUnchecked(lReadContext *s){
 	if(unlikely(s->data >= s->bufEnd)){
 		return NIL;
 	}
@@ -585,9 +595,20 @@ static lVal lReadValue(lReadContext *s){
 	}
 }
 
+static lVal lReadValue(lReadContext *s){
+	if(unlikely(s->depth >= READ_DEPTH_MAX)){
+		return lValExceptionReader(s, "Nested too deeply");
+	}
+	s->depth++;
+	const lVal ret = lReadValueUnchecked(s);
+	s->depth--;
+	return ret;
+}
+
 lVal lRead(const char *str, size_t len){
 	lReadContext ctx;
 	ctx.buf = ctx.data = str;
 	ctx.bufEnd = &str[len];
+	ctx.depth = 0;
 	return lReadList(&ctx, true, ')');
 }
-- 
2.43.0


From a1115fb6ef27b97a2be3dc81ea9e30a942a0e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 32/69] fix: the error for a symbol without a name points into
 the text being read

---
 lib/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 1d97cda..9ae4419 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -192,7 +192,7 @@ static lVal lFinishSymbol(lReadContext *s, uint i, char buf[128], const char *st
 		kwstart = &buf[1];
 	}
 	if(unlikely(*start == 0)){
-		return lValExceptionReaderEnd(s, kwstart, "Sym/KW too short");
+		return lValExceptionReaderEnd(s, start, "Sym/KW too short");
 	}
 	lVal ret = keyword
 		? lValKeyword(kwstart)
-- 
2.43.0


From e4e356974279365d6caa9a9a7512a2c6f6e29bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 33/69] fix: printing a list that ends in #f prints its tail

---
 stdlib/string/printer.nuj | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 68999a4..38a2fbb 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -96,15 +96,15 @@
                          (return (write/raw (cadr v) port hr?)))
                        (:block-write port "(")
                        (def first? #f)
-                       (while v
+                       (while (pair? v)
                          (if first?
                              (:block-write port " ")
                              (set! first? #t))
-                         (if (pair? v)
-                             (write/raw (car v) port hr?)
-                             (do (:block-write port ". ")
-                                 (write/raw v port hr?)))
+                         (write/raw (car v) port hr?)
                          (cdr! v))
+                       (when-not (nil? v)
+                         (:block-write port " . ")
+                         (write/raw v port hr?))
                        (:block-write port ")"))
 
                  (defn write/raw/string (v port hr?)
-- 
2.43.0


From 9077f53859f367ce948d7a49fe3d581b2b13068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 34/69] fix: printing a string goes on after a NUL byte

---
 stdlib/string/printer.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/string/printer.nuj b/stdlib/string/printer.nuj
index 38a2fbb..2e70b97 100644
--- a/stdlib/string/printer.nuj
+++ b/stdlib/string/printer.nuj
@@ -113,7 +113,7 @@
                        (dotimes (i (:length v))
                          (def c (ref v i))
                          (case c
-                               (0 (return (:block-write port "\"")))
+                               (0 (:block-write port "\\0"))
                                (#x07 (:block-write port "\\a"))
                                (#x08 (:block-write port "\\b"))
                                (#x09 (:block-write port "\\t"))
-- 
2.43.0


From 048954f9194281e42472f01783477a5861b83552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 35/69] fix: read-line handles long lines and input without a
 final newline, char-write writes its character

---
 stdlib/string/portng.nuj | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stdlib/string/portng.nuj b/stdlib/string/portng.nuj
index 723c567..1b6dffd 100644
--- a/stdlib/string/portng.nuj
+++ b/stdlib/string/portng.nuj
@@ -35,7 +35,8 @@
       (def view (:u8 buf))
       (while #t
              (while (>= i (:length buf))
-                    (:length! (+ 128 (:length buf))))
+                    (:length! buf (+ 128 (:length buf)))
+                    (set! view (:u8 buf)))
              (set! c (:char-read port))
              (when (= c :end-of-file)
                    (return (if (zero? i) #nil i)))
@@ -96,7 +97,7 @@
 
   (defn char-write (self char)
         (set! self.temp-buffer 0 char)
-        (file/write* self.handle temporary-buffer 1))
+        (file/write* self.handle self.temp-buffer 1))
 
   (defn close! (self)
         (file/close* self.handle))
@@ -175,8 +176,8 @@
   (defn char-read (self char)
         (when (file/eof*? self.handle)
           (return :end-of-file))
-        (when-not (file/read* self.handle self.temp-buffer 1)
-                  (return :end-of-file))
+        (when (zero? (file/read* self.handle self.temp-buffer 1))
+          (return :end-of-file))
         (ref self.temp-buffer 0))
 
   (defn raw! (self)
-- 
2.43.0


From c4841232a88c294319bf8fe46208463d453fa37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 36/69] fix: native methods are not bound to a missing name in
 the root environment

---
 lib/allocator.c | 5 +++--
 lib/closure.c   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/allocator.c b/lib/allocator.c
index 521ecad..0bcdb37 100644
--- a/lib/allocator.c
+++ b/lib/allocator.c
@@ -104,6 +104,7 @@ lNFunc *lNFuncAlloc(){
 	if(unlikely(lNFuncMax >= NFN_MAX-1)){
 		exit(124);
 	}
-	memset(&lNFuncList[lNFuncMax++], 0, sizeof(ltNativeFunc));
-	return &lNFuncList[lNFuncMax++];
+	lNFunc *ret = &lNFuncList[lNFuncMax++];
+	memset(ret, 0, sizeof(lNFunc));
+	return ret;
 }
diff --git a/lib/closure.c b/lib/closure.c
index 326a27c..e4ff2ef 100644
--- a/lib/closure.c
+++ b/lib/closure.c
@@ -161,7 +161,7 @@ lClosure *lNewRoot(){
 lClosure *lRedefineNativeFuncs(lClosure *c){
 	for(uint i=0;i<lNFuncMax;i++){
 		lNFunc *t = &lNFuncList[i];
-		if(t == NULL){break;}
+		if(t->name == NULL){continue;} // Methods are part of their class
 		lVal nf = lValAlloc(ltNativeFunc, t);
 		lDefineClosureSym(c, t->name, nf);
 	}
-- 
2.43.0


From 7f19d9bd3c4e45425184eb948b86f084f03b0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 37/69] fix: strings read from an image are terminated by a NUL

---
 lib/imageReader.c | 3 ++-
 lib/imageWriter.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index d3ddb69..9a7bf02 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -114,8 +114,9 @@ static lBuffer *readBuffer(readImageMap *map, const lImage *img, i32 off, bool s
 		buf->buf = data;
 		buf->flags |= BUFFER_STATIC;
 	} else {
-		buf->buf = malloc(len);
+		buf->buf = malloc(len + 1); // Strings have to be terminated by a NUL
 		memcpy(buf->buf, data, len);
+		((u8 *)buf->buf)[len] = 0;
 	}
 	return buf;
 }
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 12bddf2..81b983a 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -186,7 +186,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
 	if(mapOff > 0){ return mapOff; }
 
-	const i32 eleSize = 4 + v->length;
+	const i32 eleSize = 4 + v->length + 1; // Strings have to be terminated by a NUL
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
@@ -197,6 +197,7 @@ static i32 ctxAddBuffer(writeImageContext *ctx, lBuffer *v){
 	ctx->curOff += eleSize;
 
 	memcpy(&out[1], v->data, v->length);
+	ctx->start[curOff + eleSize - 1] = 0;
 	return curOff;
 }
 
-- 
2.43.0


From b537cd45adea0bb125dcfad6e19113f45c1daac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 38/69] fix: images keep the identity and immutability of
 trees, and trees that contain themselves

---
 lib/imageReader.c   | 24 +++++++++++++++---------
 lib/imageWriter.c   | 19 ++++++++++---------
 lib/nujel-private.h |  2 ++
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 9a7bf02..385c1c3 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -138,13 +138,13 @@ static lBufferView *readBufferView(readImageMap *map, const lImage *img, i32 off
 	return view;
 }
 
-static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
+static lTreeRoot *readTree(readImageMap *map, const lImage *img, i32 off, bool staticImage){
 	const void *mapP = readMapGet(map, off);
-	if(mapP != NULL){ return ((lTreeRoot *)mapP)->root; }
-	if(off < 0){return NULL;}
-	if(off >= (1<<24)-1){return NULL;}
-	const i32 len = img->data[off] | (img->data[off+1]<<8);
+	if(mapP != NULL){ return (lTreeRoot *)mapP; }
 	lTreeRoot *root = lTreeRootAllocRaw();
+	if(off < 0){return root;}
+	if(off >= (1<<24)-1){return root;}
+	const i32 len = img->data[off] | (img->data[off+1]<<8);
 	readMapSet(map, off, root);
 	off += 2;
 	for(int i=0;i<len;i++){
@@ -158,7 +158,7 @@ static lTree *readTree(readImageMap *map, const lImage *img, i32 off, bool stati
 			root->root = lTreeInsert(root->root, s, v);
 		}
 	}
-	return root->root;
+	return root;
 }
 
 static lNFunc *readNFunc(readImageMap *map, const lImage *img, i32 off, bool staticImage){
@@ -200,8 +200,8 @@ static lClosure *readClosure(readImageMap *map, const lImage *img, i32 off, bool
 	readMapSet(map, off, ret);
 
 	ret->args = readVal(map, img, clo->args, staticImage);
-	ret->data = readTree(map, img, clo->data, staticImage);
-	ret->meta = readTree(map, img, clo->meta, staticImage);
+	ret->data = clo->data < 0 ? NULL : readTree(map, img, clo->data, staticImage)->root;
+	ret->meta = clo->meta < 0 ? NULL : readTree(map, img, clo->meta, staticImage)->root;
 	ret->parent = readClosure(map, img, clo->parent, staticImage);
 	ret->sp = clo->sp;
 	ret->text = readBytecodeArray(map, img, clo->text, staticImage);
@@ -264,7 +264,13 @@ static lVal readVal(readImageMap *map, const lImage *img, i32 off, bool staticIm
 	case litBytecodeArr:
 		return lValAlloc(ltBytecodeArr, readBytecodeArray(map, img, tbyte, staticImage));
 	case litTree:
-		return lValTree(readTree(map, img, tbyte, staticImage));
+		return lValAlloc(ltTree, readTree(map, img, tbyte, staticImage));
+	case litImmutableTree: {
+		lTreeRoot *root = readTree(map, img, tbyte, staticImage);
+		if(root->root){
+			root->root->flags |= TREE_IMMUTABLE;
+		}
+		return lValAlloc(ltTree, root); }
 	case litArray:
 		return lValAlloc(ltArray, readArray(map, img, tbyte, staticImage));
 	case litPair:
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index 81b983a..e89a419 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -88,17 +88,17 @@ static i32 ctxAddTreeVal(writeImageContext *ctx, i32 curOff, lTree *v){
 	return curOff;
 }
 
-static i32 ctxAddTree(writeImageContext *ctx, lTree *v){
-	if(v == NULL){return -1;}
-	const i32 mapOff = writeMapGet(&ctx->map, (void *)v);
+/* Key identifies what is shared, the value of type tree or the bindings of a closure */
+static i32 ctxAddTree(writeImageContext *ctx, void *key, lTree *v){
+	const i32 mapOff = writeMapGet(&ctx->map, key);
 	if(mapOff > 0){ return mapOff; }
 
-	const int len = lTreeSize(v);
+	const int len = v == NULL ? 0 : lTreeSize(v);
 	const i32 eleSize = 2 + (6*len);
 	ctxRealloc(ctx, eleSize);
 
 	const i32 curOff = ctx->curOff;
-	writeMapSet(&ctx->map, (void *)v, curOff);
+	writeMapSet(&ctx->map, key, curOff);
 	ctx->start[curOff  ] =  len     & 0xFF;
 	ctx->start[curOff+1] = (len>>8) & 0xFF;
 	ctx->curOff += eleSize;
@@ -163,8 +163,8 @@ static i32 ctxAddClosure(writeImageContext *ctx, lClosure *v){
 	ctx->curOff += eleSize;
 
 	const i32 args = ctxAddVal(ctx, v->args);
-	const i32 data = ctxAddTree(ctx, v->data);
-	const i32 meta = ctxAddTree(ctx, v->meta);
+	const i32 data = v->data == NULL ? -1 : ctxAddTree(ctx, v->data, v->data);
+	const i32 meta = v->meta == NULL ? -1 : ctxAddTree(ctx, v->meta, v->meta);
 	const i32 text = ctxAddBytecodeArray(ctx, v->text);
 	const i32 parent = ctxAddClosure(ctx, v->parent);
 
@@ -304,8 +304,9 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 		break; }
 	case ltTree: {
 		ctx->curOff += 4;
-		*outb = litTree;
-		const i32 off = ctxAddTree(ctx, v.vTree->root);
+		const lTree *root = v.vTree->root;
+		*outb = (root && (root->flags & TREE_IMMUTABLE)) ? litImmutableTree : litTree;
+		const i32 off = ctxAddTree(ctx, v.vTree, v.vTree->root);
 		outb = ((void *)&ctx->start[curOff+1]);
 		*outb++ = off&0xFF;
 		*outb++ = (off>>8)&0xFF;
diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index a970cd0..cd03eac 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -474,6 +474,8 @@ typedef enum {
 	litTrue,
 	litFalse,
 
+	litImmutableTree,
+
 } lImageType;
 
 typedef struct {
-- 
2.43.0


From 9a96f642fa5cd2566c1018231ddd7163b88077b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 39/69] fix: what can't be part of an image raises an error
 when serializing

---
 lib/imageReader.c |  3 ++-
 lib/imageWriter.c | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/imageReader.c b/lib/imageReader.c
index 385c1c3..d12d45e 100644
--- a/lib/imageReader.c
+++ b/lib/imageReader.c
@@ -300,7 +300,8 @@ lVal readImage(const void *ptr, size_t imgSize, bool staticImage){
 	if(unlikely(img == NULL)){
 		return lValExceptionSimple();
 	}
-	if(unlikely((img->magic[0] != 'N')
+	if(unlikely((imgSize <= sizeof(lImage))
+	   || (img->magic[0] != 'N')
 	   || (img->magic[1] != 'u')
 	   || (img->magic[2] != 'j')
 	   || (img->magic[3] != 'I'))){
diff --git a/lib/imageWriter.c b/lib/imageWriter.c
index e89a419..8a6702c 100644
--- a/lib/imageWriter.c
+++ b/lib/imageWriter.c
@@ -17,6 +17,7 @@ typedef struct {
 	i32 curOff;
 	i32 size;
 	writeImageMap map;
+	bool failed; // Set if something can't be part of an image
 } writeImageContext;
 
 static i32 ctxAddVal(writeImageContext *ctx, lVal v);
@@ -247,7 +248,7 @@ static i32 ctxAddPair(writeImageContext *ctx, lPair *v){
 	return curOff;
 }
 
-static u8 ctxAddFilehandle(FILE *fh){
+static u8 ctxAddFilehandle(writeImageContext *ctx, FILE *fh){
 	if(fh == stdin){
 		return 0;
 	} else if(fh == stdout){
@@ -255,6 +256,7 @@ static u8 ctxAddFilehandle(FILE *fh){
 	} else if(fh == stderr){
 		return 2;
 	} else {
+		ctx->failed = true;
 		return 0xFF;
 	}
 }
@@ -269,15 +271,19 @@ static i32 ctxAddVal(writeImageContext *ctx, lVal v){
 	case ltAny:
 	case ltComment:
 	case ltException:
-		exit(234);
+		ctx->curOff += 1;
+		*outb = litNil;
+		ctx->failed = true;
+		break;
 	case ltFileHandle:
 		ctx->curOff += 2;
 		*outb++ = litFileHandle;
-		*outb = ctxAddFilehandle(v.vFileHandle);
+		*outb = ctxAddFilehandle(ctx, v.vFileHandle);
 		break;
 	case ltNativeFunc: {
 		ctx->curOff += 4;
 		*outb = litNativeFunc;
+		if(unlikely(v.vNFunc->name == NULL)){ctx->failed = true;} // They are found by name
 		const i32 off = ctxAddSymbol(ctx, v.vNFunc->name);
 		outb = ((void *)&ctx->start[curOff+1]);
 		*outb++ = off&0xFF;
@@ -439,6 +445,14 @@ static lImage *writeImage(lVal rootValue, i32 *outSize){
 
 	ctxAddVal(&ctx, rootValue);
 
+	if(unlikely(ctx.failed || (ctx.curOff >= (1<<24)-1))){ // Offsets have to fit into 24 bits
+		free(buf);
+		free(ctx.start);
+		free(ctx.map.key);
+		free(ctx.map.val);
+		return NULL;
+	}
+
 	buf = realloc(buf, sizeof(lImage) + ctx.curOff);
 	memcpy(buf->data, ctx.start, ctx.curOff);
 	size += ctx.curOff;
-- 
2.43.0


From ba133d4a4b009cd26ccc5c0927725759706916b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 40/69] fix: functions that nest deeply or take many arguments
 do not write past the stacks

---
 lib/vm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 1bd74ae..7af6815 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -44,18 +44,21 @@ static lVal lStackBuildList(lVal *stack, int sp, int len){
 	return ret;
 }
 
+/* Every instruction pushes at most one value and one closure, so a function
+ * can't use more of the stacks than it has bytes of code. */
 static void lBytecodeEnsureSufficientStack(lThread *ctx){
+	const int codeSize = ctx->text->dataEnd - ctx->text->data;
 	const int closureSizeLeft = (ctx->closureStackSize - ctx->csp) - 1;
-	if(unlikely(closureSizeLeft < 16)){
-		ctx->closureStackSize += 512;
+	if(unlikely(closureSizeLeft < (16 + codeSize))){
+		ctx->closureStackSize += 512 + codeSize;
 		lClosure **t = realloc(ctx->closureStack, ctx->closureStackSize * sizeof(lClosure *));
 		if(unlikely(t == NULL)){ exit(56); }
 		ctx->closureStack = t;
 	}
 
 	const int valueSizeLeft = ctx->valueStackSize - ctx->sp;
-	if(unlikely(valueSizeLeft < 32)){
-		ctx->valueStackSize += 512;
+	if(unlikely(valueSizeLeft < (32 + codeSize))){
+		ctx->valueStackSize += 512 + codeSize;
 		lVal *t = realloc(ctx->valueStack, ctx->valueStackSize * sizeof(lVal));
 		if(unlikely(t == NULL)){ exit(57); }
 		ctx->valueStack = t;
@@ -219,6 +222,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 	ctx.text             = text;
 	ctx.valueStack[0]    = NIL;
 	ctx.valueStack[1]    = NIL;
+	lBytecodeEnsureSufficientStack(&ctx);
 
 	ip = ops->data;
 
-- 
2.43.0


From 298d44674ecc116b7e221cb1b3ebc1029e11b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 41/69] fix: the stack position of a closure is not truncated
 to 16 bits

---
 lib/nujel-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nujel-private.h b/lib/nujel-private.h
index cd03eac..c6d4015 100644
--- a/lib/nujel-private.h
+++ b/lib/nujel-private.h
@@ -153,7 +153,7 @@ struct lClosure {
 		lVal args;
 		lVal exceptionHandler;
 	};
-	u16 sp;
+	u32 sp;
 	u8 type;
 };
 
-- 
2.43.0


From f82ba3c0d3ec014bc2e83a397542e29edd609274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 42/69] fix: setting an unbound symbol raises an error in
 functions with many literals

---
 lib/vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 7af6815..388d0d1 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -586,7 +586,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		// used that I prefer to keep it simple
 		const uint v = (ip[0] << 8) | (ip[1]);
 		ip += 2;
-		lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]);
+		if(unlikely(!lSetClosureSym(c, lits[v].vSymbol, ctx.valueStack[ctx.sp]))){
+			lThrow(lValException(lSymUnboundVariable, "Can't set symbol", lValSymS(lits[v].vSymbol)));
+		}
 		vmbreak; }
 	vmcase(lopSetVal) {
 		const lSymbol *s = lits[*ip++].vSymbol;
-- 
2.43.0


From 7d0101c023c6faa3254388e6945c2f7d233f6d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 43/69] fix: calling a method without a receiver does not look
 at what is beyond the stack

---
 lib/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/vm.c b/lib/vm.c
index 388d0d1..d2aedc0 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -791,7 +791,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal fun = ctx.valueStack[ctx.sp--];
 		lVal *vs = &ctx.valueStack[argsSp];
 		if(unlikely(fun.type == ltKeyword)){
-			const lVal self = vs[1-len];
+			const lVal self = len > 0 ? vs[1-len] : NIL;
 			const lVal nfun = lMethodLookup(fun.vSymbol, self);
 			if(unlikely(nfun.type == ltException)){
 				lThrow(lValException(lSymTypeError, "Unknown method", lCons(fun, lCons(lValType(&lClassList[self.type]), NIL))));
-- 
2.43.0


From c1c72dd05dc2dd05e82ac827bc530e60eee76bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 44/69] fix: calling a lambda without code raises an error

---
 lib/vm.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index d2aedc0..9a10045 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -79,6 +79,11 @@ static lVal stackTrace(const lThread *ctx){
 	return ret;
 }
 
+/* Environments can be turned into lambdas, they can't be called without code though */
+static inline bool lHasCode(lVal lambda){
+	return lambda.vClosure->text != NULL;
+}
+
 static inline lClosure *funCallClosure(lVal lambda) {
 	lClosure *tmpc = lClosureAllocRaw();
 	tmpc->parent = lambda.vClosure;
@@ -707,6 +712,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		c = ctx.closureStack[--ctx.csp];
 		switch(fun.type){
 		case ltLambda:
+			if(unlikely(!lHasCode(fun))){
+				lThrow(lValException(lSymTypeError, "Can't apply to following val", fun));
+			}
 			c = ctx.closureStack[++ctx.csp] = lClosureNewFunCall(cargs, fun);
 			lRestoreFromClosure();
 			lBytecodeEnsureSufficientStack(&ctx);
@@ -801,6 +809,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		switch(fun.type){
 		case ltMacro:
 		case ltLambda: {
+			if(unlikely(!lHasCode(fun))){
+				lThrow(lValException(lSymTypeError, "Can't apply to following val", fun));
+			}
 			lStoreInClosure(0);
 
 			ctx.closureStack[++ctx.csp] = c = funCallClosure(fun);
@@ -882,6 +893,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		switch(fun.type){
 		case ltMacro:
 		case ltLambda:
+			if(unlikely(!lHasCode(fun))){
+				lThrow(lValException(lSymTypeError, "Can't apply to following val", fun));
+			}
 			lStoreInClosure(0);
 
 			ctx.closureStack[++ctx.csp] = lClosureNewFunCall(cargs, fun);
-- 
2.43.0


From 44f69e19593dc9f70a44a56e70e509ecf81dc824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 45/69] fix: creating a function checks that its parameters are
 symbols and its body is bytecode

---
 lib/vm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/vm.c b/lib/vm.c
index 9a10045..17d1859 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -21,6 +21,11 @@ static inline void lClosureSetMeta(lClosure *c, lVal doc){
 /* Create a new Lambda Value */
 static inline lVal lLambdaNew(lClosure *parent, lVal args, lVal body){
 	reqBytecodeArray(body);
+	for(lVal n = args; n.type == ltPair; n = n.vList->cdr){
+		if(unlikely(n.vList->car.type != ltNil)){ // () reads as (#nil)
+			reqSymbolic(n.vList->car);
+		}
+	}
 	lVal ret = lValAlloc(ltLambda, lClosureNew(parent, closureDefault));
 	ret.vClosure->args = args;
 	ret.vClosure->text = body.vBytecodeArr;
@@ -761,6 +766,9 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 		lVal cDocs = ctx.valueStack[ctx.sp--];
 		lVal cArgs = ctx.valueStack[ctx.sp--];
 		lVal fun = lLambdaNew(c, cArgs, cBody);
+		if(unlikely(fun.type == ltException)){
+			lThrow(fun);
+		}
 		lClosureSetMeta(fun.vClosure, cDocs);
 		if(unlikely(curOp == lopMacroDynamic)){
 			fun.type = ltMacro;
-- 
2.43.0


From 0fc635d82f5e777bfe76b933b0d95b3ace4b5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 46/69] fix: throwing a list does not append the stack trace to
 the list itself

---
 lib/vm.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 17d1859..0cdbd91 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -84,6 +84,19 @@ static lVal stackTrace(const lThread *ctx){
 	return ret;
 }
 
+/* Return a copy of the exception with a stack trace at its end, what was thrown
+ * might still be in use and must not change */
+static lVal lWithStackTrace(lVal exception, const lThread *ctx){
+	const lVal ret = lCons(exception.vList->car, NIL);
+	lPair *t = ret.vList;
+	for(lVal n = exception.vList->cdr; n.type == ltPair; n = n.vList->cdr){
+		t->cdr = lCons(n.vList->car, NIL);
+		t = t->cdr.vList;
+	}
+	t->cdr = lCons(stackTrace(ctx), NIL);
+	return ret;
+}
+
 /* Environments can be turned into lambdas, they can't be called without code though */
 static inline bool lHasCode(lVal lambda){
 	return lambda.vClosure->text != NULL;
@@ -692,11 +705,7 @@ lVal lBytecodeEval(lClosure *callingClosure, lBytecodeArray *text){
 
 		if(likely(exceptionThrownValue.type == ltException)){
 			exceptionThrownValue.type = ltPair;
-			lPair *t = exceptionThrownValue.vList;
-			while(t->cdr.type == ltPair){
-				t=t->cdr.vList;
-			}
-			t->cdr = lCons(stackTrace(&ctx),NIL);
+			exceptionThrownValue = lWithStackTrace(exceptionThrownValue, &ctx);
 		}
 
 		while(likely(c != NULL) && (c->type != closureTry)){
-- 
2.43.0


From 22a7e4bf8644ccda4342ca568ff397992304adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 47/69] fix: changing the tree of bindings of a lambda does not
 lose some of its bindings

---
 lib/type-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index c9283be..1c14c9d 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -137,7 +137,7 @@ static lVal lnmLambdaHas(lVal self, lVal key){
 }
 
 static lVal lnmLambdaData(lVal self){
-	return lValTree(self.vClosure->data);
+	return lValTree(lTreeDup(self.vClosure->data)); // Inserting into a tree changes its root
 }
 
 static lVal lnmLambdaCode(lVal self){
-- 
2.43.0


From 344a18660f1c8997746d156f35a2054cef5e1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 48/69] fix: code that jumps further than 16 bits allow raises
 an error when assembling

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index b4a39c7..b8bee27 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -427,6 +427,8 @@
                  (defn assemble/relocate-op (code sym-map pos out)
                        (def target (ref sym-map (cadr code)))
                        (def off (- (+ target (cadddr code)) pos))
+                       (when (or (< off -32768) (> off 32767))
+                         (exception :out-of-bounds "Can't jump that far, try to split up that function" off))
                        (set! out (inc! pos) (bit-and (bit-shift-right off (caddr code)) #xFF))
                        (return pos))
 
-- 
2.43.0


From 56fb556447a30c5b0511f16712ccb5c347b69ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 49/69] fix: disassembling literals with 16-bit indices, try
 and the longest jump back

---
 .../backend_bytecode/disassembler.nuj         | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/disassembler.nuj b/stdlib/compiler/backend_bytecode/disassembler.nuj
index b0a0285..5955c6b 100644
--- a/stdlib/compiler/backend_bytecode/disassembler.nuj
+++ b/stdlib/compiler/backend_bytecode/disassembler.nuj
@@ -8,9 +8,9 @@
                    (defn disassemble/length (op)
                          ; Return the length in bytes of a bytecode operation and all its arguments
                          (case op
-                               ((#x0 #x1 #x3 #xC #xD #x11 #x12 #x13 #x14 #x15 #x16 #x17 #x18 #x19 #x1B #x1C #x1D #x1E #x1F #x20 #x21 #x22 #x23 #x24 #x25 #x26 #x27 #x28 #x29 #x2A #x2B #x2C #x2D #x2F #x30 #x31 #x32 #x33 #x34 #x35 #x36 #x37 #x38) 1)
+                               ((#x0 #x1 #x3 #xC #xD #x11 #x12 #x13 #x14 #x15 #x16 #x17 #x18 #x1B #x1C #x1D #x1E #x1F #x20 #x21 #x22 #x23 #x24 #x25 #x26 #x27 #x28 #x29 #x2A #x2B #x2C #x2D #x2F #x30 #x31 #x32 #x33 #x34 #x35 #x36 #x37 #x38) 1)
                                ((#x2 #x4 #x5 #x7 #xE #x1A #x2E) 2)
-                               ((#x6 #x8 #x9 #xA #xB #xF #x10 ) 3)
+                               ((#x6 #x8 #x9 #xA #xB #xF #x10 #x19) 3)
                                (otherwise (exception :unknown-op "This op needs its length specified for disassembly to work" op))))
 
                    (defn bytecode/nil-catcher (error) (if (= (car error) :type-error) #nil (throw error)))
@@ -26,13 +26,17 @@
                    (defn bytecode-op->offset (a b)
                          ; Turn two bytecode ops encoding an offset into the integer representation
                          (def t (bit-or (bit-shift-left a 8) b))
-                         (if-not (> t 32768) t
+                         (if-not (>= t 32768) t
                                  (- (- 65536 t))))
 
                    (defn bytecode-arr->offset (a i)
                          ; Read a bytecode encoded offset in A at I and return it as a signed integer
                          (bytecode-op->offset (ref a i) (ref a (+ 1 i))))
 
+                   (defn bytecode-arr->literal (a i literals)
+                         ; Return the literal with the 16-bit index following the op in A at I
+                         (ref literals (bit-or (bit-shift-left (ref a (+ i 1)) 8) (ref a (+ i 2)))))
+
                    (defn disassemble/maybe-quote (v)
                          ; Quotes symbols but just passes through every other value
                          (cond ((symbol? v) (list 'quote v))
@@ -48,21 +52,17 @@
                                (#x3  '($add/int))
                                (#x4  `($apply ~(ref a (+ i 1))))
                                (#x5  `($set/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#x6  `($push/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                            (bit-shift-left (ref a (+ i 2))) 8))))
+                               (#x6  `($push/val/ext ~(disassemble/maybe-quote (bytecode-arr->literal a i literals))))
                                (#x7  `($def/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#x8  `($def/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
+                               (#x8  `($def/val/ext ~(disassemble/maybe-quote (bytecode-arr->literal a i literals))))
                                (#x9  `($jmp*  ~(bytecode-arr->offset a (+ i 1))))
                                (#xA  `($jt*   ~(bytecode-arr->offset a (+ i 1))))
                                (#xB  `($jf*   ~(bytecode-arr->offset a (+ i 1))))
                                (#xC  '($dup))
                                (#xD  '($drop))
                                (#xE  `($get/val ~(disassemble/maybe-quote (ref literals (ref a (+ i 1))))))
-                               (#xF  `($get/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
-                               (#x10 `($set/val/ext ~(ref literals (bit-or (ref a (+ i 1))
-                                                                           (bit-shift-left (ref a (+ i 2)) 8)))))
+                               (#xF  `($get/val/ext ~(disassemble/maybe-quote (bytecode-arr->literal a i literals))))
+                               (#x10 `($set/val/ext ~(disassemble/maybe-quote (bytecode-arr->literal a i literals))))
                                (#x11 '($car))
                                (#x12 '($cdr))
                                (#x13 '($closure/push))
-- 
2.43.0


From 01121f99486a595e46ac4d85f6cea7d63cea8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 50/69] fix: functions with equal metadata do not share it

---
 lib/vm.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/vm.c b/lib/vm.c
index 0cdbd91..8168ceb 100644
--- a/lib/vm.c
+++ b/lib/vm.c
@@ -14,8 +14,7 @@ static inline void lClosureSetMeta(lClosure *c, lVal doc){
 	if(unlikely(doc.type != ltTree)){
 		return;
 	}
-	lTree *t = doc.vTree->root;
-	c->meta = (t && t->flags & TREE_IMMUTABLE) ? lTreeDup(t) : t;
+	c->meta = lTreeDup(doc.vTree->root); // The literal is shared by every function with equal metadata
 }
 
 /* Create a new Lambda Value */
-- 
2.43.0


From 51127b07d6f3429c09106e0e23c83bd774bf5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 51/69] fix: immutable views can be written to files, but not
 be read into

---
 lib/buffer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/buffer.c b/lib/buffer.c
index 075cb63..c850896 100644
--- a/lib/buffer.c
+++ b/lib/buffer.c
@@ -19,11 +19,12 @@ size_t lBufferLength(const lBuffer *v){
 
 const void *lBufferViewData(lBufferView *v){
 	if(unlikely(v == NULL)){return NULL;}
-	if(unlikely(v->buf->flags & BUFFER_IMMUTABLE)){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
 void *lBufferViewDataMutable(lBufferView *v){
+	if(unlikely(v == NULL)){return NULL;}
+	if(unlikely((v->flags & BUFFER_VIEW_IMMUTABLE) || (v->buf->flags & BUFFER_IMMUTABLE))){return NULL;}
 	return &((u8 *)v->buf->buf)[v->offset * lBufferViewTypeSize(v->type)];
 }
 
-- 
2.43.0


From 2a9fded1c48a6cebaa3856e96546b670250d64d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 52/69] fix: opening a file that exists for output does not
 truncate it by default

---
 bin/port.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/port.c b/bin/port.c
index f1fcb24..0bb420b 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -52,9 +52,9 @@ static lVal lnfFileOpenOutput(lVal aPathname, lVal aIfExists){
 	FILE *fh = NULL;
 	if(mode == lSymError){
 #if defined(_MSC_VER)
-		if (_access(path, 02) == 0) { lValBool(false); }
+		if (_access(path, 02) == 0) { return lValBool(false); }
 #else
-		if(access(path, F_OK) == 0){lValBool(false);}
+		if(access(path, F_OK) == 0){return lValBool(false);}
 #endif
 		fh = fopen(path, "wb");
 	}else if(mode == lSymReplace){
-- 
2.43.0


From 740abf965fb4251c6ec4fb1fef1f34c9a3adddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 53/69] fix: reading from and writing to files checks that the
 offset is within the buffer

---
 bin/port.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/port.c b/bin/port.c
index 0bb420b..3ceb4b7 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -122,7 +122,7 @@ static lVal lnfFileReadAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset)
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
-	if((bufSize - offset) < size){
+	if((offset < 0) || (offset > bufSize) || ((bufSize - offset) < size)){
 		return lValException(lSymTypeError, "Buffer is too small for that read operation", contentV);
 	}
 	while(bytesRead < size){
@@ -164,6 +164,9 @@ static lVal lnfFileWriteAst(lVal aHandle, lVal aBuffer, lVal aSize, lVal aOffset
 	if(buf == NULL){
 		return lValException(lSymTypeError, "Can't read into an immutable buffer", contentV);
 	}
+	if((offset < 0) || (offset > bufSize)){
+		return lValException(lSymTypeError, "Offset is outside of that buffer", aOffset);
+	}
 	if(size < 0){
 		size = bufSize - offset;
 	}
-- 
2.43.0


From 46a23023b42358eff7cbf1a2377b7a24c387759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 54/69] fix: file/tell* checks that it got a file handle

---
 bin/port.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/port.c b/bin/port.c
index 3ceb4b7..14c6e31 100644
--- a/bin/port.c
+++ b/bin/port.c
@@ -191,6 +191,7 @@ static lVal lnfFileFlush(lVal aHandle){
 }
 
 static lVal lnfFileTell(lVal aHandle){
+	reqFileHandle(aHandle);
 	const i64 pos = ftell(aHandle.vFileHandle);
 	return lValInt(pos);
 }
-- 
2.43.0


From 416d69d5ff66e29378e441b23f3c71c6b335e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 55/69] fix: slurp returns #nil for files that can't be read,
 instead of raising a type error

---
 binlib/io.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index b756c02..306dc85 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -80,7 +80,8 @@
 
 (defn slurp (pathname)
       "Read the entirety of PATHNAME and return it as a string if possible, otherwise return #nil."
-      (buffer->string (slurp/buffer pathname)))
+      (def buf (slurp/buffer pathname))
+      (and buf (buffer->string buf)))
 (def file/read slurp)
 
 (defn spit (pathname content)
-- 
2.43.0


From 79d91e3a0bf89abb03fd3a03731de9bb851c0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 56/69] fix: spit returns #f when writing fails

---
 binlib/io.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binlib/io.nuj b/binlib/io.nuj
index 306dc85..0d62fb1 100644
--- a/binlib/io.nuj
+++ b/binlib/io.nuj
@@ -93,8 +93,8 @@
                (file/close* fh)
                (return #f))
            (file/write* fh content)
-           (file/close* fh))
-      (return #t))
+           (file/close* fh)
+           (return #t)))
 
 (defn file/write (content pathname)
       "Writes CONTENT into PATHNAME"
-- 
2.43.0


From bc2bc45cf0c69dfdc52c0c025cba45aaa0138295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 57/69] fix: method lookup ends on cyclic prototypes, and does
 not use methods of other types

---
 lib/type-system.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/type-system.c b/lib/type-system.c
index 1c14c9d..2969163 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -232,13 +232,17 @@ lVal lMethodLookup(const lSymbol *method, lVal self){
 		lValException(lSymVMError, "Out-of-bounds Type", self);
 	}
 	if(self.type == ltTree){
-		lVal v = lTreeRef(self.vTree->root, method);
-		if(v.type != ltException){
-			return v;
-		}
-		lVal proto = lTreeRef(self.vTree->root, lSymPrototype);
-		if(proto.type != ltException){
-			return lMethodLookup(method, proto);
+		const lTreeRoot *t = self.vTree;
+		for(int i = 0; i < TRR_MAX; i++){ // Prototypes might form a cycle
+			const lVal v = lTreeRef(t->root, method);
+			if(v.type != ltException){
+				return v;
+			}
+			const lVal proto = lTreeRef(t->root, lSymPrototype);
+			if(proto.type != ltTree){
+				break; // The methods of other types can't deal with a tree
+			}
+			t = proto.vTree;
 		}
 	}
 	if(self.type == ltType){
-- 
2.43.0


From 96d0ce02eac1136e3238c11f2e01b8c8ad1d5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 58/69] fix: environments without code return #nil as their
 code

---
 lib/type-system.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/type-system.c b/lib/type-system.c
index 2969163..4c43d02 100644
--- a/lib/type-system.c
+++ b/lib/type-system.c
@@ -141,6 +141,9 @@ static lVal lnmLambdaData(lVal self){
 }
 
 static lVal lnmLambdaCode(lVal self){
+	if(unlikely(self.vClosure->text == NULL)){ // For example the scope of a let
+		return NIL;
+	}
 	return lValAlloc(ltBytecodeArr, self.vClosure->text);
 }
 
-- 
2.43.0


From 38138afdc3349396901a2f928fc6f7bbb22054d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 59/69] fix: cond goes on after a clause whose test is
 literally #f or #nil

---
 stdlib/core/flow.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/flow.nuj b/stdlib/core/flow.nuj
index ee9b977..0ae4dae 100644
--- a/stdlib/core/flow.nuj
+++ b/stdlib/core/flow.nuj
@@ -43,7 +43,7 @@
 
 (defn cond/fn (body)
       :internal
-      (when (and body (caar body))
+      (when body
                 (list 'if
                       (caar body)
                       (cons 'do (cdar body))
-- 
2.43.0


From e3f3e5ed421a0e03de403140aa4339948d2a867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 60/69] fix: pos? evaluates its argument once

---
 stdlib/core/predicates.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/core/predicates.nuj b/stdlib/core/predicates.nuj
index cabe1a8..afad4d6 100644
--- a/stdlib/core/predicates.nuj
+++ b/stdlib/core/predicates.nuj
@@ -7,7 +7,7 @@
       "Return #t if a is the last pair in a list"
       (nil? (cdr a)))
 
-(defn pos? (a) :inline
+(defn pos? (a)
       "Return #t if a is positive"
       (and (number? a)
            (>= a 0.0)))
-- 
2.43.0


From e777decbf91e89d002d945ccec70107085922b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 61/69] fix: $fn/dynamic and $macro/dynamic assemble to their
 own opcodes

---
 stdlib/compiler/backend_bytecode/assembler.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/compiler/backend_bytecode/assembler.nuj b/stdlib/compiler/backend_bytecode/assembler.nuj
index b8bee27..26d5a3e 100644
--- a/stdlib/compiler/backend_bytecode/assembler.nuj
+++ b/stdlib/compiler/backend_bytecode/assembler.nuj
@@ -141,13 +141,13 @@
       ; (name args docs body) -> (λ) --- Create a new λ
       :internal
       :inline
-      '(#x2F))
+      '(#x17))
 
 (defn $macro/dynamic ()
       ; (name args docs body) -> (μ) --- Create a new μ
       :internal
       :inline
-      '(#x30))
+      '(#x18))
 
 (defn $add ()
       ; (a b) -> (result)
-- 
2.43.0


From 650a30baa737f7d9bdbb07be2649b4c663e3e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 62/69] fix: module paths with several parts going up resolve
 to the right directory

Every .. dropped the part before it even if that was another .., so
../../x was the same as x.
---
 stdlib/core/module.nuj | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/core/module.nuj b/stdlib/core/module.nuj
index d189c2e..9109398 100644
--- a/stdlib/core/module.nuj
+++ b/stdlib/core/module.nuj
@@ -69,15 +69,15 @@
                  (= "." (car parts)))
              (module/resolve-string/join (cdr parts) ret))
             ((= ".." (car parts))
-             (when-not (cadr parts)
+             (when-not ret
                        (exception "Invalid path" parts))
-             (module/resolve-string/join (cddr parts) ret))
+             (module/resolve-string/join (cdr parts) (cdr ret)))
             (otherwise (module/resolve-string/join (cdr parts) (cons (car parts) ret)))))
 
 (defn module/resolve-string (name wd)
       :internal
       (def mod-path wd)
-      (def parts (module/resolve-string/join (nreverse (append (split mod-path "/") (split name "/"))) #nil))
+      (def parts (nreverse (module/resolve-string/join (append (split mod-path "/") (split name "/")) #nil)))
       (:keyword (join (cons "" parts) "/"))) ; The cons is for the leading /
 
 (defn module/load (name env)
-- 
2.43.0


From 727d65083be2c346b175c9dcb6ec04c221a2d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 63/69] fix: serializing an array as JSON does not change the
 array

map replaces the elements of arrays in place, so afterwards the array
contained their JSON representation.
---
 stdlib_modules/serialization/json.nuj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stdlib_modules/serialization/json.nuj b/stdlib_modules/serialization/json.nuj
index 0287c5c..5636c75 100644
--- a/stdlib_modules/serialization/json.nuj
+++ b/stdlib_modules/serialization/json.nuj
@@ -20,7 +20,8 @@
             (:nil "null")
             ((:int :float) (:string v))
             (:bool (if v "true" "false"))
-            ((:array :pair) (cat "[" (join (map v val->json) ",") "]"))
+            (:array (cat "[" (join (map (array/dup v) val->json) ",") "]")) ; map works in place
+            (:pair (cat "[" (join (map v val->json) ",") "]"))
             (:string (string/write v))
             ((:symbol :keyword)  (cat "\"" (:string v) "\""))
             (:tree (tree->json v))
-- 
2.43.0


From cc74d22ea201fee40ddb64fdb871549008927f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 64/69] fix: JSON strings and names are escaped as JSON
 requires

Control characters were written as escapes JSON does not know, and names
were not escaped at all.
---
 stdlib_modules/serialization/json.nuj | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/stdlib_modules/serialization/json.nuj b/stdlib_modules/serialization/json.nuj
index 5636c75..9278643 100644
--- a/stdlib_modules/serialization/json.nuj
+++ b/stdlib_modules/serialization/json.nuj
@@ -3,12 +3,32 @@
 ;;;
 ;;; Contains subroutines for (de-)serializing JSON
 
+(defn string->json (s)
+      "Converts a string into a JSON string, only quotes, backslashes and control characters need to be escaped"
+      (def pp (:new StringOutputPort))
+      (:block-write pp "\"")
+      (dotimes (i (:length s))
+        (def c (ref s i))
+        (case c
+              (#x08 (:block-write pp "\\b"))
+              (#x09 (:block-write pp "\\t"))
+              (#x0A (:block-write pp "\\n"))
+              (#x0C (:block-write pp "\\f"))
+              (#x0D (:block-write pp "\\r"))
+              (#x22 (:block-write pp "\\\""))
+              (#x5C (:block-write pp "\\\\"))
+              (otherwise (if (< c #x20)
+                             (:block-write pp (fmt "\\u{c:04x}"))
+                             (:char-write pp c)))))
+      (:block-write pp "\"")
+      (:return-string pp))
+
 (defn tree->json (v)
       "Converts a tree into a JSON encoded string, you should prefer VAL->JSON"
       (cat "{"
            (join (map (:keys v)
                       (fn (k)
-                        (cat "\"" (:string k) "\": "
+                        (cat (string->json (:string k)) ": "
                              (val->json (ref v k)))))
                  ",\n")
            "}"))
@@ -22,8 +42,8 @@
             (:bool (if v "true" "false"))
             (:array (cat "[" (join (map (array/dup v) val->json) ",") "]")) ; map works in place
             (:pair (cat "[" (join (map v val->json) ",") "]"))
-            (:string (string/write v))
-            ((:symbol :keyword)  (cat "\"" (:string v) "\""))
+            (:string (string->json v))
+            ((:symbol :keyword)  (string->json (:string v)))
             (:tree (tree->json v))
             (otherwise (exception :type-error "Can't encode the value into JSON" v))))
 
-- 
2.43.0


From 71c41319e64387a5061239db51ea54a5ad8cd36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 65/69] fix: deleting backwards at the start of a text does
 nothing

It removed the first line and left the cursor above the text.
---
 stdlib_modules/app/termed/buffer.nuj | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stdlib_modules/app/termed/buffer.nuj b/stdlib_modules/app/termed/buffer.nuj
index c93d6e8..f7128d5 100644
--- a/stdlib_modules/app/termed/buffer.nuj
+++ b/stdlib_modules/app/termed/buffer.nuj
@@ -137,6 +137,7 @@
         (:length! lines (max 0 ll)))
 
   (defn backward-delete-line (self)
+        (when (zero? self.pos-y) (return)) ; There is no line before the first one
         (def clipboard (:kill-line self))
         (:remove-line self)
         (set! self.pos-y (- self.pos-y 1))
-- 
2.43.0


From 3051227a18706f69b2e89cef60959b638b32854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 66/69] fix: without colours texts are printed as they are

disable! made every colour code the text #t.
---
 stdlib_modules/ansi.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/ansi.nuj b/stdlib_modules/ansi.nuj
index 4d4e25b..6d4eee4 100644
--- a/stdlib_modules/ansi.nuj
+++ b/stdlib_modules/ansi.nuj
@@ -7,7 +7,7 @@
 (def disabled #f)
 (defn disable! (v)
       :export
-      (set! disabled (if (nil? v) #t v)))
+      (set! disabled (if (or (nil? v) v) "" #f)))
 
 (export reset (def reset "\e[0m"))
 (export fg-reset (def fg-reset "\e[0;39m"))
-- 
2.43.0


From 20b1ea249164e58cfd4885c5e7c905460cd9bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 67/69] fix: highlighting keeps everything behind an unbalanced
 bracket

It also failed on a # at the end, or in a block comment without one.
---
 stdlib_modules/pretty/nujel.nuj | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stdlib_modules/pretty/nujel.nuj b/stdlib_modules/pretty/nujel.nuj
index 6f1af63..0c8676c 100644
--- a/stdlib_modules/pretty/nujel.nuj
+++ b/stdlib_modules/pretty/nujel.nuj
@@ -41,11 +41,12 @@
       (set! i (+ i 2))
       (while (< i len)
         (def c (ref source i))
+        (def n (if (< (inc/int i) len) (ref source (inc/int i)) 0))
         (cond ((and (= c #\#)
-                    (= (ref source (inc/int i)) #\|))
+                    (= n #\|))
                (set! i (comment-block source i pp colors)))
               ((and (= c #\|)
-                    (= (ref source (inc/int i)) #\#))
+                    (= n #\#))
                (:block-write pp "|#")
                (:block-write pp (ref colors 0))
                (return (+ 2 i)))
@@ -82,7 +83,7 @@
       (return i))
 
 (defn literal-special (source i pp colors)
-      (def n (ref source (inc i)))
+      (def n (if (< (inc i) (:length source)) (ref source (inc i)) 0))
       (case n
             (#\! (return (comment-eol source i pp colors)))
             (#\| (return (comment-block source i pp colors)))
@@ -183,7 +184,9 @@
       (def colors (case output-format
                                (:html html-colors)
                                (otherwise ansi-colors)))
-      (top source 0 pp colors 0)
+      (def i 0)
+      (while (< i (:length source)) ; There might be something behind an unbalanced bracket
+        (set! i (top source i pp colors 0)))
       (:return-string pp))
 
 (defn main (args)
-- 
2.43.0


From 2268d84559a720f0b0161398a1e2791fa222a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:48 +0000
Subject: [PATCH 68/69] fix: net/http: call req* by its name within the module

---
 stdlib_modules/net/http.nuj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib_modules/net/http.nuj b/stdlib_modules/net/http.nuj
index 44745bb..07086ff 100644
--- a/stdlib_modules/net/http.nuj
+++ b/stdlib_modules/net/http.nuj
@@ -56,8 +56,8 @@
         (set! url (:cut url 7))
         (def path-start (:index-of url "/"))
         (return (if (>= path-start 0)
-                    (http/req* "GET"
+                    (req* "GET"
                                (:cut url 0 path-start)
                                (:cut url path-start))
-                    (http/req* "GET" url "/"))))
+                    (req* "GET" url "/"))))
       (error "unsupported scheme"))
-- 
2.43.0


From 76f05ca9c8e0115b5ba2dcc7f6cdb0cb66ed586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:48 +0000
Subject: [PATCH 69/69] fix: net/http: the body ends where the reply ends

---
 stdlib_modules/net/http.nuj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib_modules/net/http.nuj b/stdlib_modules/net/http.nuj
index 07086ff..8cc04f2 100644
--- a/stdlib_modules/net/http.nuj
+++ b/stdlib_modules/net/http.nuj
@@ -32,7 +32,7 @@
       (when (< eoh 0) (return #nil))
 
       (def headers {})
-      (def body (:cut buf (+ 4 eoh)))
+      (def body (:cut buf (+ 4 eoh) bytes-read))
       (def status-list (split (buffer->string buf eosl) " "))
       (def status-code (read/int (cadr status-list)))
       (doseq (header (split (buffer->string buf eoh (+ 2 eosl)) "\r\n"))
-- 
2.43.0

