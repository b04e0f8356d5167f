From d26c4ed22d7f4adb4a39d3e1c157a0e1bd4f48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 01/64] fix: a nil element no longer makes a one-element list
 look empty

---
 data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index dcfe12f..097926e 100644
--- a/data.go
+++ b/data.go
@@ -228,6 +228,11 @@ func EmptyCons() *Data {
 }
 
 func Cons(car *Data, cdr *Data) *Data {
+	// A cell with neither a car nor a cdr is the empty list, so an element
+	// that is nil has to be stored as an explicit empty list.
+	if car == nil {
+		car = EmptyCons()
+	}
 	cell := ConsCell{Car: car, Cdr: cdr}
 	return &Data{Type: ConsCellType, Value: unsafe.Pointer(&cell)}
 }
@@ -720,7 +725,7 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 
 func QuoteIt(value *Data) (result *Data) {
 	if value == nil {
-		return InternalMakeList(Intern("quote"), Cons(nil, nil))
+		return InternalMakeList(Intern("quote"), EmptyCons())
 	} else {
 		return InternalMakeList(Intern("quote"), value)
 	}
-- 
2.43.0


From 991c16c9af08b3d58fed3acf0b67bb74aa9b7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 02/64] fix: bind the parameter of a function or macro that
 only has a rest parameter

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 4bdd440..348362d 100644
--- a/function.go
+++ b/function.go
@@ -62,6 +62,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
diff --git a/macro.go b/macro.go
index c8f7f9c..778b48f 100644
--- a/macro.go
+++ b/macro.go
@@ -43,6 +43,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
-- 
2.43.0


From 46c660d4214d16f459cd641a4c8e83062c22cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:08 +0000
Subject: [PATCH 03/64] fix: apply, flatten and quasiquote treat the empty list
 at the end of a list as its end, not as an element

---
 data.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/data.go b/data.go
index 097926e..218ea70 100644
--- a/data.go
+++ b/data.go
@@ -684,7 +684,7 @@ func Flatten(d *Data) (result *Data, err error) {
 	var l []*Data = make([]*Data, 0, 10)
 	for c := d; NotNilP(c); c = Cdr(c) {
 		if ListP(Car(c)) {
-			for i := Car(c); i != nil; i = Cdr(i) {
+			for i := Car(c); NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
@@ -712,7 +712,7 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 			if err != nil {
 				return
 			}
-			for i := elem; i != nil; i = Cdr(i) {
+			for i := elem; NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
@@ -733,12 +733,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
-- 
2.43.0


From 02d6d3761521e8d87cb43c4415d6ea59c4fd1554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:14 +0000
Subject: [PATCH 04/64] fix: -> and => pass on values instead of evaluating
 them a second time

---
 prim_special_forms.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..0590e8c 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -480,9 +480,9 @@ func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(QuoteIt(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(QuoteIt(value), nil))
 		}
 		value, err = Eval(newExpr, env)
 		if err != nil {
@@ -506,9 +506,9 @@ func TapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(QuoteIt(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(QuoteIt(value), nil))
 		}
 		_, err = Eval(newExpr, env)
 		if err != nil {
-- 
2.43.0


From 91934643e2aa3ee82f9432494d7ef273589d1f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:19 +0000
Subject: [PATCH 05/64] fix: do reports an error in a step expression

---
 prim_special_forms.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 0590e8c..7249cff 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,8 +437,9 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
-			return
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return
-- 
2.43.0


From 10cd3fcb185cea93a2c8dad014d97f0ab8f25216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 06/64] fix: apply without an argument list is an error, not a
 panic

---
 prim_special_forms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 7249cff..544c22f 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -455,7 +455,7 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	ary := ToArray(Cdr(args))
 	var argList *Data
-	if ListP(ary[len(ary)-1]) {
+	if len(ary) > 0 && ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
 		} else {
-- 
2.43.0


From ff27643fe214a418852d04ba1b85cc4f94665c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 07/64] fix: set!, set-car!, set-cdr! and set-nth! stop after
 reporting a bad first argument

---
 list_access.go   |  7 +++++--
 prim_mutators.go | 20 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..c5323aa 100644
--- a/list_access.go
+++ b/list_access.go
@@ -136,9 +136,12 @@ func Tenth(d *Data) *Data {
 }
 
 func SetNth(list *Data, index int, value *Data) *Data {
-	for i := index; i > 1; list, i = Cdr(list), i-1 {
+	for i := index; i > 1 && NotNilP(list); list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
+	if value == nil {
+		value = EmptyCons()
+	}
+	if !NilP(list) && ConsValue(list) != nil {
 		ConsValue(list).Car = value
 	}
 
diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..0ed934a 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -20,6 +20,7 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	symbol := Car(args)
 	if !SymbolP(symbol) {
 		err = ProcessError("set! requires a raw (unevaluated) symbol as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -30,21 +31,32 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if NilP(pair) || !PairP(pair) {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
 	}
+	if value == nil {
+		value = EmptyCons()
+	}
 	ConsValue(pair).Car = value
 	return value, nil
 }
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if NilP(pair) || !PairP(pair) {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -57,8 +69,12 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
+	if err != nil {
+		return
+	}
 	if !ListP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
-- 
2.43.0


From f2785a5cbdd2d2e90fd6c25ef49b33243918a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:51 +0000
Subject: [PATCH 08/64] fix: find and find-tail report the error of their
 predicate

---
 prim_list_functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..f1d2d07 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,7 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
-
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
 			return
@@ -463,6 +465,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
-- 
2.43.0


From 438f22390e3035f6b05691ec56441e49c84c295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:56 +0000
Subject: [PATCH 09/64] fix: reject negative counts and paths in take, drop and
 general-car-cdr, and overflowing ones in extract-bytes

---
 prim_bytearray.go   |  2 +-
 prim_list_access.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/prim_bytearray.go b/prim_bytearray.go
index f0f3bad..5ce8f03 100644
--- a/prim_bytearray.go
+++ b/prim_bytearray.go
@@ -262,7 +262,7 @@ func ExtractBytesImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		err = ProcessError("Number to extract can not be negative.", env)
 		return
 	}
-	if index+numToExtract > len(*dataBytes) {
+	if numToExtract > len(*dataBytes)-index {
 		err = ProcessError(fmt.Sprintf("extract-bytes final index was out of range.  Was %d but bytearray has length of %d.", index+numToExtract-1, len(*dataBytes)), env)
 		return
 	}
diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..090729e 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -196,8 +196,8 @@ func CddddrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	list := Car(args)
 	path := IntegerValue(Cadr(args))
-	if path == 0 {
-		err = errors.New("general-car-cdr requires a non-zero path specifier")
+	if path <= 0 {
+		err = errors.New("general-car-cdr requires a positive path specifier")
 		return
 	}
 	for path != 1 {
@@ -284,6 +284,9 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
 		var bytesToCopy []byte
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			bytesToCopy = *dataBytes
 		} else {
@@ -317,6 +320,9 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		result = cell
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			newBytes := make([]byte, 0)
 			result = ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&newBytes))
-- 
2.43.0


From e2ecd3c8243ed2d1eeb836957aa4cb9891b15636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:30 +0000
Subject: [PATCH 10/64] fix: string-capitalize handles the empty string and a
 multi-byte first character

---
 prim_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..7f34567 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -10,6 +10,7 @@ package golisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -183,8 +184,9 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
-	firstChar := s[0:1]
-	remainingChars := s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	firstChar := s[:size]
+	remainingChars := s[size:]
 	parts := make([]string, 0, 2)
 	parts = append(parts, strings.ToUpper(firstChar))
 	parts = append(parts, strings.ToLower(remainingChars))
-- 
2.43.0


From dda9f4098821be90986074d3ee6d080a546c5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:37 +0000
Subject: [PATCH 11/64] fix: substring rejects a negative start instead of
 panicking

---
 prim_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_string.go b/prim_string.go
index 7f34567..88257cd 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -247,6 +247,10 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 	startValue := int(IntegerValue(startObj))
+	if startValue < 0 {
+		err = ProcessError(fmt.Sprintf("substring requires start >= 0."), env)
+		return
+	}
 	if startValue > len(stringValue) {
 		err = ProcessError(fmt.Sprintf("substring requires start < length of the string."), env)
 		return
-- 
2.43.0


From 5d25a80555fbcaf52f53a9a3f37352ce38afd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:43 +0000
Subject: [PATCH 12/64] fix: % and modulo report a zero divisor instead of
 panicking

---
 prim_math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..e3e8992 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError(fmt.Sprintf("%%/modulo: %s -> Divide by zero.", String(args)), env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
-- 
2.43.0


From e2a00fcb7b2164d7b96b98e559813060b5946fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:49 +0000
Subject: [PATCH 13/64] fix: interval terminates when its end is near the
 integer limits

---
 prim_math.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/prim_math.go b/prim_math.go
index e3e8992..17bae16 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -346,15 +346,23 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			step = direction
 		}
 	}
-	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
+	var items []*Data = make([]*Data, 0, 10)
 
+	// the bounds are checked as unsigned distances so that stepping past the
+	// end can not wrap around
 	if direction == 1 {
 		for i := start; i <= end; i = i + step {
 			items = append(items, IntegerWithValue(i))
+			if uint64(end)-uint64(i) < uint64(step) {
+				break
+			}
 		}
 	} else {
 		for i := start; i >= end; i = i + step {
 			items = append(items, IntegerWithValue(i))
+			if uint64(i)-uint64(end) < -uint64(step) {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 0bd9de99dc6539ff51d47e06327e28f046ed150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:55 +0000
Subject: [PATCH 14/64] fix: arithmetic rejects a non-number that follows a
 float

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 17bae16..956129f 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return result, nil
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From bcdbacb0a934505de9c2439b318dde38738f1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:00 +0000
Subject: [PATCH 15/64] fix: compare integers and take their absolute value
 exactly, not as 32 bit floats

---
 prim_math.go             |  6 +++++-
 prim_relative_logical.go | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/prim_math.go b/prim_math.go
index 956129f..2f7d2d0 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -611,7 +611,11 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 	absval := math.Abs(float64(FloatValue(val)))
 	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+		n := IntegerValue(val)
+		if n < 0 {
+			n = -n
+		}
+		result = IntegerWithValue(n)
 	} else {
 		result = FloatWithValue(float32(absval))
 	}
diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..ebed5f4 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -42,6 +42,9 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	val := FloatValue(arg1) < FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) < IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -59,6 +62,9 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 	}
 
 	val := FloatValue(arg1) > FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) > IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -88,6 +94,9 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 	}
 
 	val := FloatValue(arg1) <= FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) <= IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -105,6 +114,9 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 
 	val := FloatValue(arg1) >= FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) >= IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
-- 
2.43.0


From 7ae9b25a60a8901947759f6418e98627b297abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:06 +0000
Subject: [PATCH 16/64] fix: format reports an incomplete directive instead of
 panicking and resets the @ modifier for every directive

---
 prim_io.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b2c919b..10cd6f2 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -196,6 +196,15 @@ func ListDirectoryImpl(args *Data, env *SymbolTableFrame) (result *Data, err err
 	return ArrayToList(names), nil
 }
 
+// formatDirectiveAt returns the character at index i, or 0 past the end, which
+// is not a valid directive.
+func formatDirectiveAt(controlString string, i int) byte {
+	if i < len(controlString) {
+		return controlString[i]
+	}
+	return 0
+}
+
 func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	destination := Car(args)
 	if !BooleanP(destination) && !PortP(destination) {
@@ -227,14 +236,15 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			atModifier = false
+			for unicode.IsDigit(rune(formatDirectiveAt(controlString, i))) {
 				i++
 			}
 			if i == start {
-				if controlString[i] == '#' {
+				if formatDirectiveAt(controlString, i) == '#' {
 					numericArg = Length(arguments)
 					i++
-				} else if controlString[i] == 'V' || controlString[i] == 'v' {
+				} else if formatDirectiveAt(controlString, i) == 'V' || formatDirectiveAt(controlString, i) == 'v' {
 					if IntegerP(Car(arguments)) {
 						numericArg = int(IntegerValue(Car(arguments)))
 						arguments = Cdr(arguments)
@@ -253,11 +263,11 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
+			if formatDirectiveAt(controlString, i) == '@' {
 				atModifier = true
 				i++
 			}
-			switch controlString[i] {
+			switch formatDirectiveAt(controlString, i) {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
-- 
2.43.0


From 205aa4726d0b0829da6412864c391f55aedcb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:12 +0000
Subject: [PATCH 17/64] fix: format reports missing arguments as it reports
 surplus ones

---
 prim_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index 10cd6f2..e478ddc 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -269,6 +269,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 			switch formatDirectiveAt(controlString, i) {
 			case 'A', 'a':
+				if NilP(arguments) {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
@@ -286,6 +290,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				start = i + 1
 
 			case 'S', 's':
+				if NilP(arguments) {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = String(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
-- 
2.43.0


From 472e1db02ab63a7108c1024d795c7323e59f7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:01 +0000
Subject: [PATCH 18/64] fix: the dot of a dotted pair is recognised before any
 delimiter, not just a space

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..29425e1 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -276,7 +276,7 @@ func (self *Tokenizer) readNextToken() (token int, lit string) {
 	} else if self.CurrentCh == '}' {
 		self.Advance()
 		return RBRACE, "}"
-	} else if self.CurrentCh == '.' && self.NextCh == ' ' {
+	} else if self.CurrentCh == '.' && !self.isSymbolCharacter(self.NextCh) {
 		self.Advance()
 		return PERIOD, "."
 	} else if self.isSymbolCharacter(self.CurrentCh) {
-- 
2.43.0


From 1e3a35c0267e536f6c4939738b527e9b9542cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 19/64] fix: an empty list at the top level of a program no
 longer ends it

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index 174d45d..751b111 100644
--- a/parser.go
+++ b/parser.go
@@ -353,9 +353,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From 1ab5d027d5aa670915219c0822f59845704241ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:12 +0000
Subject: [PATCH 20/64] fix: a byte array literal rejects negative elements

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 751b111..36f8f91 100644
--- a/parser.go
+++ b/parser.go
@@ -145,7 +145,7 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if err != nil {
 			return
 		}
-		if IntegerP(element) && IntegerValue(element) > 255 {
+		if IntegerP(element) && (IntegerValue(element) < 0 || IntegerValue(element) > 255) {
 			err = errors.New(fmt.Sprintf("Numeric literals in a bytearray must be bytes. Encountered %s.", String(element)))
 			return
 		}
-- 
2.43.0


From 8717807403b2ebe15be434b7972e7154632923c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:10 +0000
Subject: [PATCH 21/64] fix: the reader rejects input that ends inside a
 quoted, dotted or string expression

---
 parser.go    | 30 +++++++++++++++++-------------
 tokenizer.go |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/parser.go b/parser.go
index 36f8f91..4c80325 100644
--- a/parser.go
+++ b/parser.go
@@ -77,7 +77,10 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if tok == PERIOD {
 			s.ConsumeToken()
 			cdr, eof, err = parseExpression(s)
-			if eof || err != nil {
+			if eof {
+				err = errors.New("Unexpected EOF (expected closing parenthesis)")
+			}
+			if err != nil {
 				return
 			}
 			tok, _ = s.NextToken()
@@ -168,14 +171,6 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 
 func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	tok, _ := s.NextToken()
-	if tok == RBRACKET {
-		s.ConsumeToken()
-		f := FrameMap{}
-		f.Data = make(FrameMapData)
-		sexpr = FrameWithValue(&f)
-		return
-	}
-
 	var element *Data
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACE {
@@ -196,6 +191,15 @@ func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	return
 }
 
+// parseQuoted parses the expression that a quote character applies to.
+func parseQuoted(s *Tokenizer) (sexpr *Data, err error) {
+	sexpr, eof, err := parseExpression(s)
+	if eof {
+		err = errors.New("Unexpected EOF (expected an expression after a quote)")
+	}
+	return
+}
+
 func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	for {
 		tok, lit := s.NextToken()
@@ -253,28 +257,28 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 			return
 		case QUOTE:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, err = parseQuoted(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("quote"), Cons(sexpr, nil))
 			}
 			return
 		case BACKQUOTE:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, err = parseQuoted(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("quasiquote"), Cons(sexpr, nil))
 			}
 			return
 		case COMMA:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, err = parseQuoted(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote"), Cons(sexpr, nil))
 			}
 			return
 		case COMMAAT:
 			s.ConsumeToken()
-			sexpr, eof, err = parseExpression(s)
+			sexpr, err = parseQuoted(s)
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote-splicing"), Cons(sexpr, nil))
 			}
diff --git a/tokenizer.go b/tokenizer.go
index 29425e1..e3a40f7 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -210,7 +210,7 @@ func (self *Tokenizer) readString() (token int, lit string) {
 		self.Advance()
 	}
 	if self.isEof() {
-		return EOF, ""
+		return ILLEGAL, "unterminated string"
 	}
 	self.Advance()
 	return STRING, string(buffer)
-- 
2.43.0


From 5a791440300b48ac4061df527458018d3c06dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:44 +0000
Subject: [PATCH 22/64] fix: every port keeps its own buffered input, so
 interleaved reads do not lose data

---
 prim_io.go   |  1 +
 tokenizer.go | 30 +++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index e478ddc..5c0b751 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -73,6 +73,7 @@ func ClosePortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	forgetFileTokenizer(PortValue(p))
 	(*os.File)(PortValue(p)).Close()
 	return
 
diff --git a/tokenizer.go b/tokenizer.go
index e3a40f7..a4989e4 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"sync"
 	"unicode"
 )
 
@@ -51,8 +52,10 @@ type Tokenizer struct {
 	AlmostEof      bool
 }
 
-var mostRecentFileTokenizer *Tokenizer
-var mostRecentlyUsedFile *os.File
+// the tokenizer of each open port that has been read from: it holds the input
+// that was buffered but not yet consumed
+var fileTokenizers = make(map[*os.File]*Tokenizer)
+var fileTokenizersMutex sync.Mutex
 
 func NewTokenizer(scanner *bufrr.Reader) *Tokenizer {
 	t := &Tokenizer{Source: scanner}
@@ -66,14 +69,23 @@ func NewTokenizerFromString(src string) *Tokenizer {
 }
 
 func NewTokenizerFromFile(src *os.File) *Tokenizer {
-	if mostRecentlyUsedFile == src {
-		return mostRecentFileTokenizer
-	} else {
-		t := NewTokenizer(bufrr.NewReader(src))
-		mostRecentFileTokenizer = t
-		mostRecentlyUsedFile = src
-		return t
+	fileTokenizersMutex.Lock()
+	t := fileTokenizers[src]
+	fileTokenizersMutex.Unlock()
+
+	if t == nil {
+		t = NewTokenizer(bufrr.NewReader(src))
+		fileTokenizersMutex.Lock()
+		fileTokenizers[src] = t
+		fileTokenizersMutex.Unlock()
 	}
+	return t
+}
+
+func forgetFileTokenizer(src *os.File) {
+	fileTokenizersMutex.Lock()
+	defer fileTokenizersMutex.Unlock()
+	delete(fileTokenizers, src)
 }
 
 func (self *Tokenizer) Advance() {
-- 
2.43.0


From 7d92defd8cfd7ea961b541d959d0bfd5c54a377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:58 +0000
Subject: [PATCH 23/64] fix: backslashes in a printed string are escaped

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 218ea70..7969243 100644
--- a/data.go
+++ b/data.go
@@ -934,7 +934,7 @@ func IsEqual(d *Data, o *Data) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if rune(ch) == '"' || rune(ch) == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
-- 
2.43.0


From f0d5053b9d622f9effc8d4f02d4945700eedadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:03 +0000
Subject: [PATCH 24/64] fix: very large and very small floats print in a form
 the reader reads back

---
 data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 7969243..2abe74d 100644
--- a/data.go
+++ b/data.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"sort"
+	"strconv"
 	"strings"
 	"sync/atomic"
 	"unsafe"
@@ -1002,7 +1003,8 @@ func String(d *Data) string {
 			if math.IsNaN(float64(v)) {
 				return "nan"
 			}
-			raw := fmt.Sprintf("%g", FloatValue(d))
+			// no exponent, as the reader does not know that notation
+			raw := strconv.FormatFloat(float64(v), 'f', -1, 32)
 			if strings.ContainsRune(raw, '.') {
 				return raw
 			}
-- 
2.43.0


From d9dd2dd6fe8848e4f16d600aa1621472481b69d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 25/64] fix: a list that starts with quote but has several
 operands is printed in full

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 2abe74d..ab340fb 100644
--- a/data.go
+++ b/data.go
@@ -962,7 +962,7 @@ func String(d *Data) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if len(contents) <= 2 && SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
-- 
2.43.0


From 243b9b093aabccf1892ed40beff7bb9fe08e11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 26/64] fix: interning a name concurrently always gives the
 same symbol

---
 symbol_table_frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..6967c4f 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -52,8 +52,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
-		sym = SymbolWithName(name)
-		internedSymbols.Symbols[name] = sym
+		sym = internedSymbols.Symbols[name] // it may have been interned meanwhile
+		if sym == nil {
+			sym = SymbolWithName(name)
+			internedSymbols.Symbols[name] = sym
+		}
 		internedSymbols.Mutex.Unlock()
 	}
 	return
-- 
2.43.0


From d77ff1e9e02fd4339d2caa358fc7f1a0530905f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 27/64] fix: the scope of a call, let or do no longer replaces
 the top level environment of the same name

---
 function.go           |  4 ++--
 macro.go              |  2 +-
 prim_frame.go         |  4 ++--
 prim_special_forms.go |  6 +++---
 symbol_table_frame.go | 20 +++++++++++---------
 5 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/function.go b/function.go
index 348362d..87d0aa7 100644
--- a/function.go
+++ b/function.go
@@ -101,7 +101,7 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 }
 
 func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
+	localEnv := newScope(self.Env, frame, self.Name)
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
@@ -167,7 +167,7 @@ func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableF
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(argEnv, self.Name)
+	localEnv := newScope(argEnv, nil, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, true)
 	if err != nil {
 		return
diff --git a/macro.go b/macro.go
index 778b48f..c14cb5d 100644
--- a/macro.go
+++ b/macro.go
@@ -82,7 +82,7 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 }
 
 func (self *Macro) Expand(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(self.Env, self.Name)
+	localEnv := newScope(self.Env, nil, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, false)
 	if err != nil {
 		return
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..b026f09 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -210,7 +210,7 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	params := Cdr(args)
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
+	frameEnv := newScope(env, env.Frame, fmt.Sprintf("%s'", env.Name))
 	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
 	if err != nil {
 		return
@@ -318,7 +318,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
+	frameEnv := newScope(env, env.Frame, fmt.Sprintf("%s'", env.Name))
 	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
 	if err != nil {
 		return
diff --git a/prim_special_forms.go b/prim_special_forms.go
index 544c22f..6bde600 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -267,7 +267,7 @@ func LetCommon(args *Data, env *SymbolTableFrame, star bool, rec bool) (result *
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "let")
+	localEnv := newScope(env, nil, "let")
 	localEnv.Previous = env
 	var evalEnv *SymbolTableFrame
 	if star || rec {
@@ -317,7 +317,7 @@ func namedLetImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 	varsList := ArrayToList(vars)
 	initialsList := ArrayToList(initials)
-	localEnv := NewSymbolTableFrameBelow(env, StringValue(name))
+	localEnv := newScope(env, nil, StringValue(name))
 	localEnv.Previous = env
 	_, err = localEnv.BindLocallyTo(name, nil)
 	if err != nil {
@@ -401,7 +401,7 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "do")
+	localEnv := newScope(env, nil, "do")
 	localEnv.Previous = env
 	err = bindLetLocals(bindings, false, localEnv, env)
 	if err != nil {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 6967c4f..d25a52e 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -132,13 +132,19 @@ func (self *SymbolTableFrame) DumpHeader() {
 	fmt.Printf("%s\n", self.CurrentCodeString())
 }
 
-func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
-	var f *FrameMap = nil
-	if p != nil {
+// newScope returns the environment of a function call, macro expansion, let or
+// do. Unlike those the exported functions make, it is never found by name as a
+// top level environment.
+func newScope(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	if f == nil && p != nil {
 		f = p.Frame
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	return &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+}
+
+func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
+	env := newScope(p, nil, name)
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -148,11 +154,7 @@ func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFram
 }
 
 func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
-	if f == nil {
-		f = p.Frame
-	}
-	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := newScope(p, f, name)
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
-- 
2.43.0


From bffc7f7fb9cfe578fba360eccfaf2a09aa7ef6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:33 +0000
Subject: [PATCH 28/64] fix: listing the bindings of an environment takes its
 lock

---
 prim_environment.go   |  6 +++---
 symbol_table_frame.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..ca234b8 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -65,7 +65,7 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.localBindings() {
 		keys = append(keys, val.Sym)
 	}
 	return ArrayToList(keys), nil
@@ -78,7 +78,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.localBindings() {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
 		}
@@ -93,7 +93,7 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.localBindings() {
 		if NilP(val.Val) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index d25a52e..421743c 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -180,6 +180,17 @@ func (self *SymbolTableFrame) SetBindingAt(name string, b *Binding) {
 	self.Mutex.Unlock()
 }
 
+// localBindings returns the bindings the environment itself has at the moment.
+func (self *SymbolTableFrame) localBindings() []*Binding {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
+	bindings := make([]*Binding, 0, len(self.Bindings))
+	for _, b := range self.Bindings {
+		bindings = append(bindings, b)
+	}
+	return bindings
+}
+
 func (self *SymbolTableFrame) DeleteBinding(name string) {
 	self.Mutex.Lock()
 	delete(self.Bindings, name)
-- 
2.43.0


From 7ff643fd7e30792dff23c0fe168de7f30118331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:55 +0000
Subject: [PATCH 29/64] fix: environment-assign! respects protected bindings

---
 prim_environment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index ca234b8..e512562 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -7,6 +7,10 @@
 
 package golisp
 
+import (
+	"fmt"
+)
+
 func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment?", "1", EnvironmentPImpl)
 	MakePrimitiveFunction("environment-has-parent?", "1", EnvironmentParentPImpl)
@@ -246,6 +250,10 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
+		if binding.Protected {
+			err = ProcessError(fmt.Sprintf("%s is a protected binding", StringValue(Cadr(args))), env)
+			return
+		}
 		result = Caddr(args)
 		binding.Val = result
 	}
-- 
2.43.0


From 3d63d6af51d01519e3ee83e236399130c663f557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:24 +0000
Subject: [PATCH 30/64] fix: procedure-environment does not let restricted code
 reach unrestricted environments

---
 prim_environment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_environment.go b/prim_environment.go
index e512562..e368ccc 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -27,7 +27,7 @@ func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment-definable?", "2", EnvironmentDefinablePImpl)
 	MakePrimitiveFunction("environment-define", "3", EnvironmentDefineImpl)
 	MakePrimitiveFunction("the-environment", "0", TheEnvironmentImpl)
-	MakePrimitiveFunction("procedure-environment", "1", ProcedureEnvironmentImpl)
+	MakeRestrictedPrimitiveFunction("procedure-environment", "1", ProcedureEnvironmentImpl)
 
 	MakePrimitiveFunction("restrict-environment", "0", RestrictEnvironmentImpl)
 	MakeRestrictedPrimitiveFunction("environment-parent", "1", EnvironmentParentImpl)
-- 
2.43.0


From 33bc34768af06bd06fa2097db488a5e594072d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:50 +0000
Subject: [PATCH 31/64] fix: a process is tied to its own execution, not to the
 function it runs, which other processes share

---
 function.go           | 11 -----------
 prim_concurrency.go   | 23 ++++++++++-------------
 symbol_table_frame.go | 17 +++++++++++++++++
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/function.go b/function.go
index 87d0aa7..99d49ab 100644
--- a/function.go
+++ b/function.go
@@ -11,7 +11,6 @@ import (
 	"errors"
 	"fmt"
 	"sync/atomic"
-	"unsafe"
 )
 
 type Function struct {
@@ -23,7 +22,6 @@ type Function struct {
 	Env              *SymbolTableFrame
 	DebugOnEntry     bool
 	SlotFunction     int32
-	ParentProcess    *Process
 }
 
 func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArgs bool) {
@@ -119,15 +117,6 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 		}
 	}
 
-	parentProcSym := Intern("parentProcess")
-	if self.ParentProcess != nil {
-		procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(self.ParentProcess))
-		_, err = localEnv.BindLocallyTo(parentProcSym, procObj)
-		if err != nil {
-			return
-		}
-	}
-
 	err = self.makeLocalBindings(args, argEnv, localEnv, eval)
 	if err != nil {
 		return
diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..ed2713b 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -76,7 +76,8 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	procEnv := newScope(env, nil, "process")
+	procEnv.Process = proc
 
 	go func() {
 		var returnValue *Data
@@ -86,7 +87,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 		callWithPanicProtection(func() {
 			var forkedErr error
-			returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cdr(args)), env)
+			returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cdr(args)), procEnv)
 			if forkedErr != nil {
 				fmt.Println(forkedErr)
 			}
@@ -174,7 +175,8 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	procEnv := newScope(env, nil, "process")
+	procEnv.Process = proc
 
 	go func() {
 		var returnValue *Data
@@ -191,7 +193,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
 				case <-proc.ScheduleTimer.C:
 					var forkedErr error
-					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
+					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), procEnv)
 					if forkedErr != nil {
 						fmt.Println(forkedErr)
 					}
@@ -260,15 +262,10 @@ func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	proc := (*Process)(ObjectValue(procObj))
 
 	// Check for early exit if joining on the current proc
-	parentProcData := env.ValueOf(SymbolWithName("parentProcess"))
-	if NotNilP(parentProcData) && ObjectP(parentProcData) && ObjectType(parentProcData) == "Process" {
-		parentProc := (*Process)(ObjectValue(parentProcData))
-
-		if proc == parentProc {
-			// Oh no, we're in our own process!  Bail out!
-			// But we want it to complete, so we're not treating it as an error
-			return nil, nil
-		}
+	if proc == env.currentProcess() {
+		// Oh no, we're in our own process!  Bail out!
+		// But we want it to complete, so we're not treating it as an error
+		return nil, nil
 	}
 
 	if atomic.CompareAndSwapInt32(&proc.Joined, 0, 1) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 421743c..eb59856 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -29,6 +29,7 @@ type SymbolTableFrame struct {
 	Mutex        sync.RWMutex
 	CurrentCode  *list.List
 	IsRestricted bool
+	Process      *Process // set in the environment that a process calls its function from
 }
 
 type symbolsTable struct {
@@ -163,6 +164,22 @@ func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name st
 	return env
 }
 
+// currentProcess returns the process that is evaluating code in the
+// environment, or nil if that is not a forked or scheduled one.
+func (self *SymbolTableFrame) currentProcess() *Process {
+	for env := self; env != nil; {
+		if env.Process != nil {
+			return env.Process
+		}
+		if env.Previous != nil {
+			env = env.Previous
+		} else {
+			env = env.Parent
+		}
+	}
+	return nil
+}
+
 func (self *SymbolTableFrame) HasFrame() bool {
 	return self.Frame != nil
 }
-- 
2.43.0


From 22571688edc708044ddf1cb0039b23b6b514ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 32/64] fix: whether a function was found in a slot is a fact
 of the lookup, not a flag on the shared function

---
 data.go               | 10 +++++-----
 function.go           | 11 +----------
 symbol_table_frame.go | 24 +++++++++++++-----------
 3 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/data.go b/data.go
index ab340fb..aad938b 100644
--- a/data.go
+++ b/data.go
@@ -15,7 +15,6 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"sync/atomic"
 	"unsafe"
 
 	"github.com/SteelSeries/set.v0"
@@ -51,8 +50,9 @@ type BoxedObject struct {
 }
 
 type Data struct {
-	Type  uint8
-	Value unsafe.Pointer
+	Type         uint8
+	SlotFunction bool // a function that was found, by its bare name, in a slot of the current frame
+	Value        unsafe.Pointer
 }
 
 // Boolean constants
@@ -1230,7 +1230,7 @@ func Apply(function *Data, args *Data, env *SymbolTableFrame) (result *Data, err
 	}
 	switch function.Type {
 	case FunctionType:
-		if atomic.LoadInt32(&FunctionValue(function).SlotFunction) == 1 && env.HasFrame() {
+		if function.SlotFunction && env.HasFrame() {
 			result, err = FunctionValue(function).ApplyWithFrame(args, env, env.Frame)
 		} else {
 			result, err = FunctionValue(function).Apply(args, env)
@@ -1254,7 +1254,7 @@ func ApplyWithoutEval(function *Data, args *Data, env *SymbolTableFrame) (result
 	}
 	switch function.Type {
 	case FunctionType:
-		if atomic.LoadInt32(&FunctionValue(function).SlotFunction) == 1 && env.HasFrame() {
+		if function.SlotFunction && env.HasFrame() {
 			result, err = FunctionValue(function).ApplyWithoutEvalWithFrame(args, env, env.Frame)
 		} else {
 			result, err = FunctionValue(function).ApplyWithoutEval(args, env)
diff --git a/function.go b/function.go
index 99d49ab..3e71102 100644
--- a/function.go
+++ b/function.go
@@ -21,7 +21,6 @@ type Function struct {
 	Body             *Data
 	Env              *SymbolTableFrame
 	DebugOnEntry     bool
-	SlotFunction     int32
 }
 
 func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArgs bool) {
@@ -40,7 +39,7 @@ func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArg
 
 func MakeFunction(name string, params *Data, body *Data, parentEnv *SymbolTableFrame) *Function {
 	requiredArgs, varArgs := computeRequiredArgumentCount(params)
-	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv, SlotFunction: 0}
+	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv}
 }
 
 func (self *Function) String() string {
@@ -107,14 +106,6 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 		if err != nil {
 			return
 		}
-	} else if atomic.LoadInt32(&self.SlotFunction) == 1 {
-		selfBinding, found := argEnv.findBindingInLocalFrameFor(selfSym)
-		if found {
-			_, err = localEnv.BindLocallyTo(selfSym, selfBinding.Val)
-			if err != nil {
-				return
-			}
-		}
 	}
 
 	err = self.makeLocalBindings(args, argEnv, localEnv, eval)
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index eb59856..8afdbb6 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -12,7 +12,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"sync/atomic"
 )
 
 const (
@@ -311,13 +310,20 @@ func (self *SymbolTableFrame) BindLocallyTo(symbol *Data, value *Data) (*Data, e
 	return binding.Val, nil
 }
 
+// withSlotFunction returns the value, which if it is a function is marked as
+// having been found in a slot or not. The function itself can be shared, with
+// other frames, bindings and processes, and stays as it is.
+func withSlotFunction(value *Data, slotFunction bool) *Data {
+	if !FunctionP(value) || value.SlotFunction == slotFunction {
+		return value
+	}
+	return &Data{Type: FunctionType, SlotFunction: slotFunction, Value: value.Value}
+}
+
 func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
 	localBinding, found := self.findBindingInLocalFrameFor(symbol)
 	if found {
-		if FunctionP(localBinding.Val) {
-			atomic.StoreInt32(&FunctionValue(localBinding.Val).SlotFunction, 1)
-		}
-		return localBinding.Val
+		return withSlotFunction(localBinding.Val, false)
 	}
 
 	if self.HasFrame() {
@@ -326,8 +332,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 		if f.HasSlot(naked) {
 			slotValue := f.Get(naked)
 			if FunctionP(slotValue) {
-				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
-				return slotValue
+				return withSlotFunction(slotValue, true)
 			}
 			if !needFunction {
 				return slotValue
@@ -337,10 +342,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 
 	binding, found := self.FindBindingFor(symbol)
 	if found {
-		if FunctionP(binding.Val) {
-			atomic.StoreInt32(&FunctionValue(binding.Val).SlotFunction, 0)
-		}
-		return binding.Val
+		return withSlotFunction(binding.Val, false)
 	} else {
 		return EmptyCons()
 	}
-- 
2.43.0


From f2da17ebbc487496ff66afd912e5cfcdea5d66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:28 +0000
Subject: [PATCH 33/64] fix: looking up a slot holds the lock of one frame at a
 time and ignores parent slots that hold no frame

---
 frame.go      | 112 +++++++++++++++-----------------------------------
 prim_frame.go |   2 -
 2 files changed, 32 insertions(+), 82 deletions(-)

diff --git a/frame.go b/frame.go
index 2430579..533bc3e 100644
--- a/frame.go
+++ b/frame.go
@@ -10,8 +10,6 @@ package golisp
 import (
 	"strings"
 	"sync"
-
-	"github.com/SteelSeries/set.v0"
 )
 
 type FrameMapData map[string]*Data
@@ -21,37 +19,16 @@ type FrameMap struct {
 	Mutex sync.RWMutex
 }
 
-func (self *FrameMap) hasSlotLocally(key string) bool {
-	_, ok := self.Data[key]
-	return ok
-}
-
-func (self *FrameMap) localSlots() []string {
-	slots := make([]string, 0, len(self.Data))
-	for k, _ := range self.Data {
-		slots = append(slots, k)
-	}
-	return slots
-}
-
 func isParentKey(key string) bool {
 	return strings.HasSuffix(key, "*:")
 }
 
-func (self *FrameMap) hasParentSlots() bool {
-	for k, _ := range self.Data {
-		if isParentKey(k) {
-			return true
-		}
-	}
-
-	return false
-}
-
 func (self *FrameMap) Parents() []*FrameMap {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
+		if isParentKey(k) && FrameP(v) {
 			parents = append(parents, FrameValue(v))
 		}
 	}
@@ -60,72 +37,50 @@ func (self *FrameMap) Parents() []*FrameMap {
 
 //------------------------------------------------------------
 
-func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
-	if v.Has(self) {
-		return false
-	}
-
-	v.Add(self)
-
-	if self.hasSlotLocally(key) {
-		return true
-	}
-
-	if !self.hasParentSlots() {
-		return false
-	}
-
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		hasSlot := p.hasSlotHelper(key, v)
-		p.Mutex.RUnlock()
-		if hasSlot {
-			return true
-		}
-	}
-
-	return false
-}
-
-func (self *FrameMap) HasSlot(key string) (ret bool) {
-	visited := set.New()
+func (self *FrameMap) findLocally(key string) (value *Data, found bool) {
 	self.Mutex.RLock()
-	ret = self.hasSlotHelper(key, visited)
+	value, found = self.Data[key]
 	self.Mutex.RUnlock()
 	return
 }
 
-//------------------------------------------------------------
-
-func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
-	if v.Has(self) {
-		return nil
+// findHelper holds the lock of one frame at a time: frames can be each other's
+// parents, so that holding several could block forever.
+func (self *FrameMap) findHelper(key string, visited map[*FrameMap]bool) (value *Data, found bool) {
+	if visited[self] {
+		return
 	}
 
-	v.Add(self)
+	visited[self] = true
 
-	val, ok := self.Data[key]
-	if ok {
-		return val
+	value, found = self.findLocally(key)
+	if found {
+		return
 	}
 
 	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		val := p.getHelper(key, v)
-		p.Mutex.RUnlock()
-		if val != nil {
-			return val
+		value, found = p.findHelper(key, visited)
+		if found {
+			return
 		}
 	}
 
-	return nil
+	return
+}
+
+// Find returns the value of a slot of the frame or else of its parents, and
+// whether there is one.
+func (self *FrameMap) Find(key string) (value *Data, found bool) {
+	return self.findHelper(key, make(map[*FrameMap]bool))
+}
+
+func (self *FrameMap) HasSlot(key string) (ret bool) {
+	_, ret = self.Find(key)
+	return
 }
 
 func (self *FrameMap) Get(key string) (ret *Data) {
-	visited := set.New()
-	self.Mutex.RLock()
-	ret = self.getHelper(key, visited)
-	self.Mutex.RUnlock()
+	ret, _ = self.Find(key)
 	return
 }
 
@@ -133,13 +88,10 @@ func (self *FrameMap) Get(key string) (ret *Data) {
 
 func (self *FrameMap) Remove(key string) bool {
 	self.Mutex.Lock()
-	if !self.hasSlotLocally(key) {
-		self.Mutex.Unlock()
-		return false
-	}
+	_, found := self.Data[key]
 	delete(self.Data, key)
 	self.Mutex.Unlock()
-	return true
+	return found
 }
 
 //------------------------------------------------------------
diff --git a/prim_frame.go b/prim_frame.go
index b026f09..f2ae0ba 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -179,8 +179,6 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 		return nil
 	}
 
-	f.Mutex.RLock()
-	defer f.Mutex.RUnlock()
 	for _, p := range f.Parents() {
 		fun := p.Get(selector)
 		if fun != nil {
-- 
2.43.0


From 2bea9bd286720f54efeabe36136a92227336c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 34/64] fix: using a slot looks it up once, so that it cannot
 vanish between the check and the use

---
 prim_frame.go         | 13 +++++++------
 symbol_table_frame.go |  4 +---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/prim_frame.go b/prim_frame.go
index f2ae0ba..662a77a 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -82,12 +82,13 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	result, found := FrameValue(f).Find(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	return FrameValue(f).Get(StringValue(k)), nil
+	return result, nil
 }
 
 func GetSlotOrNilImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -158,12 +159,12 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, found := FrameValue(f).Find(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("send requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("send requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -235,12 +236,12 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, found := FrameValue(f).Find(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("apply-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("apply-slot requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 8afdbb6..8f9845e 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -327,10 +327,8 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 	}
 
 	if self.HasFrame() {
-		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if f.HasSlot(naked) {
-			slotValue := f.Get(naked)
+		if slotValue, found := self.Frame.Find(naked); found {
 			if FunctionP(slotValue) {
 				return withSlotFunction(slotValue, true)
 			}
-- 
2.43.0


From a501ea2d530a5948f780be09e9d5ea124aecac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 35/64] fix: send-super runs the parents' method with the
 receiver, above the frame that holds the running method

---
 frame.go              | 23 +++++++++++++++++++++++
 function.go           |  1 +
 prim_frame.go         | 28 ++++++++++++++++------------
 symbol_table_frame.go |  3 ++-
 4 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/frame.go b/frame.go
index 533bc3e..4d3d55f 100644
--- a/frame.go
+++ b/frame.go
@@ -37,6 +37,29 @@ func (self *FrameMap) Parents() []*FrameMap {
 
 //------------------------------------------------------------
 
+// holderOf returns the frame, self or one of its parents, that has a slot which
+// satisfies the condition.
+func (self *FrameMap) holderOf(condition func(key string, value *Data) bool, visited map[*FrameMap]bool) *FrameMap {
+	if visited[self] {
+		return nil
+	}
+	visited[self] = true
+
+	for k, v := range self.Clone().Data {
+		if condition(k, v) {
+			return self
+		}
+	}
+
+	for _, p := range self.Parents() {
+		if holder := p.holderOf(condition, visited); holder != nil {
+			return holder
+		}
+	}
+
+	return nil
+}
+
 func (self *FrameMap) findLocally(key string) (value *Data, found bool) {
 	self.Mutex.RLock()
 	value, found = self.Data[key]
diff --git a/function.go b/function.go
index 3e71102..12ce06e 100644
--- a/function.go
+++ b/function.go
@@ -102,6 +102,7 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
+		localEnv.Method = self
 		_, err = localEnv.BindLocallyTo(selfSym, FrameWithValue(frame))
 		if err != nil {
 			return
diff --git a/prim_frame.go b/prim_frame.go
index 662a77a..0b56d9b 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -180,6 +180,20 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 		return nil
 	}
 
+	// start above the frame that the running method was found in
+	for e := env; e != nil && e.Frame == f; e = e.Parent {
+		if e.Method == nil {
+			continue
+		}
+		isMethod := func(key string, value *Data) bool {
+			return FunctionP(value) && FunctionValue(value) == e.Method
+		}
+		if holder := f.holderOf(isMethod, make(map[*FrameMap]bool)); holder != nil {
+			f = holder
+			break
+		}
+	}
+
 	for _, p := range f.Parents() {
 		fun := p.Get(selector)
 		if fun != nil {
@@ -209,12 +223,7 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	params := Cdr(args)
-	frameEnv := newScope(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(params, frameEnv)
+	return FunctionValue(fun).ApplyWithoutEvalWithFrame(params, env, env.Frame)
 }
 
 func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -317,12 +326,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := newScope(env, env.Frame, fmt.Sprintf("%s'", env.Name))
-	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
-	if err != nil {
-		return
-	}
-	return FunctionValue(fun).ApplyWithoutEval(argList, frameEnv)
+	return FunctionValue(fun).ApplyWithoutEvalWithFrame(argList, env, env.Frame)
 }
 
 func CloneImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 8f9845e..f8f9494 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -28,7 +28,8 @@ type SymbolTableFrame struct {
 	Mutex        sync.RWMutex
 	CurrentCode  *list.List
 	IsRestricted bool
-	Process      *Process // set in the environment that a process calls its function from
+	Method       *Function // the function that runs with Frame as its receiver
+	Process      *Process  // set in the environment that a process calls its function from
 }
 
 type symbolsTable struct {
-- 
2.43.0


From 7c5835b3f4fdf08428f5d34cb55b2a98a01e4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 36/64] fix: equality considers the tail of improper lists and
 absent slots, is symmetric, and does not lock or loop on frames that refer to
 each other

---
 data.go | 99 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/data.go b/data.go
index aad938b..54e50d0 100644
--- a/data.go
+++ b/data.go
@@ -817,79 +817,84 @@ func Copy(d *Data) *Data {
 	return d
 }
 
+// framePair is a pair of frames that are being compared. As frames can contain
+// each other, a comparison can reach the same pair again.
+type framePair struct {
+	d *FrameMap
+	o *FrameMap
+}
+
 func IsEqual(d *Data, o *Data) bool {
+	return isEqual(d, o, nil)
+}
+
+// isAlistSubset tells whether every key of alist d has the same value in o.
+func isAlistSubset(d *Data, o *Data, comparing []framePair) bool {
+	for c := d; NotNilP(c); c = Cdr(c) {
+		pair, err := Assoc(Caar(c), d)
+		if err != nil || NilP(pair) {
+			return false
+		}
+		otherPair, err := Assoc(Caar(c), o)
+		if err != nil || NilP(otherPair) || !isEqual(Cdr(pair), Cdr(otherPair), comparing) {
+			return false
+		}
+	}
+	return true
+}
+
+func isEqual(d *Data, o *Data, comparing []framePair) bool {
 	if d == o && !FloatP(d) {
 		return true
 	}
 
+	// compare lists element by element, up to their ends
+	for NotNilP(d) && NotNilP(o) && (PairP(d) || DottedPairP(d)) && (PairP(o) || DottedPairP(o)) {
+		if !isEqual(Car(d), Car(o), comparing) {
+			return false
+		}
+		d, o = Cdr(d), Cdr(o)
+	}
+
 	if NilP(d) && NilP(o) {
 		return true
 	}
 
-	if d == nil || o == nil {
+	if NilP(d) || NilP(o) {
 		return false
 	}
 
-	if AlistP(d) {
-		if !AlistP(o) && !ListP(o) {
-			return false
-		}
-	} else if DottedPairP(d) {
-		if !PairP(o) && !DottedPairP(o) {
-			return false
-		}
-	} else if TypeOf(o) != TypeOf(d) {
+	if TypeOf(o) != TypeOf(d) {
 		return false
 	}
 
 	if AlistP(d) {
-		if Length(d) != Length(o) {
-			return false
-		}
-		for c := d; NotNilP(c); c = Cdr(c) {
-			otherPair, err := Assoc(Caar(c), o)
-			if err != nil || NilP(otherPair) || !IsEqual(Cdar(c), Cdr(otherPair)) {
-				return false
-			}
-		}
-		return true
+		return Length(d) == Length(o) && isAlistSubset(d, o, comparing) && isAlistSubset(o, d, comparing)
 	}
 
-	if DottedPairP(d) {
-		return IsEqual(Car(d), Car(o)) && IsEqual(Cdr(d), Cdr(o))
-	}
-
-	if ListP(d) {
-		if Length(d) != Length(o) {
-			return false
+	if FrameP(d) {
+		frames := framePair{FrameValue(d), FrameValue(o)}
+		if frames.d == frames.o {
+			return true
 		}
-		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
-			if !IsEqual(Car(a1), Car(a2)) {
-				return false
+		for _, f := range comparing {
+			if f == frames {
+				return true
 			}
 		}
-		return true
-	}
-
-	if FrameP(d) {
-		frameD := FrameValue(d)
-		frameO := FrameValue(o)
-		frameD.Mutex.RLock()
-		frameO.Mutex.RLock()
-		if len(frameD.Data) != len(frameO.Data) {
-			frameO.Mutex.RUnlock()
-			frameD.Mutex.RUnlock()
+		// compare the slots as they are now, without keeping the frames locked
+		dataD := frames.d.Clone().Data
+		dataO := frames.o.Clone().Data
+		if len(dataD) != len(dataO) {
 			return false
 		}
-		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
-				frameO.Mutex.RUnlock()
-				frameD.Mutex.RUnlock()
+		comparing = append(comparing, frames)
+		for k, v := range dataD {
+			valueO, found := dataO[k]
+			if !found || !isEqual(v, valueO, comparing) {
 				return false
 			}
 		}
-		frameO.Mutex.RUnlock()
-		frameD.Mutex.RUnlock()
 		return true
 	}
 
-- 
2.43.0


From fb2718d59361ce2cc5a69aa8421acca1638ad8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 37/64] fix: copy keeps the order of an association list and
 shares none of its pairs, and copies frames that refer to each other

---
 data.go | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/data.go b/data.go
index 54e50d0..95839ec 100644
--- a/data.go
+++ b/data.go
@@ -771,6 +771,12 @@ func Dissoc(key *Data, alist *Data) (result *Data, err error) {
 }
 
 func Copy(d *Data) *Data {
+	return copyData(d, nil)
+}
+
+// copyData copies d. A frame in copying, one that contains d, is being copied
+// already: what refers to it gets that copy.
+func copyData(d *Data, copying map[*FrameMap]*Data) *Data {
 	if d == nil {
 		return d
 	}
@@ -778,11 +784,13 @@ func Copy(d *Data) *Data {
 	switch d.Type {
 	case AlistType:
 		{
-			alist := Acons(Copy(Caar(d)), Copy(Cdar(d)), nil)
-			for c := Cdr(d); NotNilP(c); c = Cdr(c) {
-				alist = Acons(Copy(Caar(c)), Copy(Cdar(c)), alist)
-			}
-			return alist
+			cell := ConsCell{Car: copyData(Car(d), copying), Cdr: copyData(Cdr(d), copying)}
+			return &Data{Type: AlistType, Value: unsafe.Pointer(&cell)}
+		}
+	case AlistCellType:
+		{
+			cell := ConsCell{Car: copyData(Car(d), copying), Cdr: copyData(Cdr(d), copying)}
+			return &Data{Type: AlistCellType, Value: unsafe.Pointer(&cell)}
 		}
 	case ConsCellType:
 		{
@@ -790,19 +798,25 @@ func Copy(d *Data) *Data {
 				return d
 			}
 
-			return Cons(Copy(Car(d)), Copy(Cdr(d)))
+			return Cons(copyData(Car(d), copying), copyData(Cdr(d), copying))
 		}
 	case FrameType:
 		{
-			m := FrameMap{}
-			m.Data = make(FrameMapData)
 			frame := FrameValue(d)
-			frame.Mutex.RLock()
-			for k, v := range frame.Data {
-				m.Data[k] = Copy(v)
+			if copying[frame] != nil {
+				return copying[frame]
+			}
+			if copying == nil {
+				copying = make(map[*FrameMap]*Data)
+			}
+			m := frame.Clone()
+			newFrame := FrameWithValue(m)
+			copying[frame] = newFrame
+			for k, v := range m.Data {
+				m.Data[k] = copyData(v, copying)
 			}
-			frame.Mutex.RUnlock()
-			return FrameWithValue(&m)
+			delete(copying, frame)
+			return newFrame
 		}
 	case BoxedObjectType:
 		{
-- 
2.43.0


From 4758896b43461eadd64deb2c4ec78e8d9c20c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:03 +0000
Subject: [PATCH 38/64] fix: printing a frame does not keep it locked and ends
 for frames that contain themselves

---
 data.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/data.go b/data.go
index 95839ec..6f02cb2 100644
--- a/data.go
+++ b/data.go
@@ -963,6 +963,11 @@ func escapeQuotes(str string) string {
 }
 
 func String(d *Data) string {
+	return stringOf(d, nil)
+}
+
+// stringOf prints d, which is part of the frames in printing.
+func stringOf(d *Data, printing []*FrameMap) string {
 	if d == nil {
 		return "()"
 	}
@@ -977,7 +982,7 @@ func String(d *Data) string {
 
 			contents := make([]string, 0, Length(d))
 			for NotNilP(c) && PairP(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringOf(Car(c), printing))
 				c = Cdr(c)
 			}
 			if NilP(c) {
@@ -991,7 +996,7 @@ func String(d *Data) string {
 					return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 				}
 			} else {
-				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), String(c))
+				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), stringOf(c, printing))
 			}
 		}
 	case AlistType:
@@ -1001,12 +1006,12 @@ func String(d *Data) string {
 			}
 			contents := make([]string, 0, Length(d))
 			for c := d; NotNilP(c); c = Cdr(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringOf(Car(c), printing))
 			}
 			return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 		}
 	case AlistCellType:
-		return fmt.Sprintf("(%s . %s)", String(Car(d)), String(Cdr(d)))
+		return fmt.Sprintf("(%s . %s)", stringOf(Car(d), printing), stringOf(Cdr(d), printing))
 	case IntegerType:
 		return fmt.Sprintf("%d", IntegerValue(d))
 	case FloatType:
@@ -1058,20 +1063,25 @@ func String(d *Data) string {
 		}
 	case FrameType:
 		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		keys := make([]string, 0, len(frame.Data))
-		for key, _ := range frame.Data {
+		for _, f := range printing {
+			if f == frame { // it contains itself
+				return "{...}"
+			}
+		}
+		printing = append(printing, frame)
+		data := frame.Clone().Data
+		keys := make([]string, 0, len(data))
+		for key, _ := range data {
 			keys = append(keys, key)
 		}
 		sort.Strings(keys)
 
-		pairs := make([]string, 0, len(frame.Data))
+		pairs := make([]string, 0, len(data))
 		for _, key := range keys {
-			val := frame.Data[key]
-			var valString string = String(val)
+			val := data[key]
+			var valString string = stringOf(val, printing)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
-		frame.Mutex.RUnlock()
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
 	case EnvironmentType:
 		return fmt.Sprintf("<environment: %s>", EnvironmentValue(d).Name)
-- 
2.43.0


From 4e01bee6bd94effc6111e49426cd9822d1d74787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 39/64] fix: the profile shows names that contain a percent
 sign

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index 52eced5..ddb9540 100644
--- a/profiling.go
+++ b/profiling.go
@@ -42,9 +42,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -53,9 +53,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0


From 98887f8b39df24d7d3471b0bc5c55b03eb5ff423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:17 +0000
Subject: [PATCH 40/64] fix: profile reports a bad or unusable file name as an
 error

---
 prim_system.go | 6 +++++-
 profiling.go   | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index 83daedf..13c89c3 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,8 +255,12 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
+		}
+		err = StartProfiling(StringValue(Cadr(args)))
+		if err != nil {
+			return
 		}
-		StartProfiling(StringValue(Cadr(args)))
 	} else {
 		StartProfiling("")
 	}
diff --git a/profiling.go b/profiling.go
index ddb9540..ec74f07 100644
--- a/profiling.go
+++ b/profiling.go
@@ -17,7 +17,7 @@ var profileOutput *os.File = nil
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
-func StartProfiling(fname string) {
+func StartProfiling(fname string) error {
 	ProfileGUID = 0
 	if fname == "" {
 		profileOutput = nil
@@ -25,10 +25,11 @@ func StartProfiling(fname string) {
 		var err error
 		profileOutput, err = os.Create(fname)
 		if err != nil {
-			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
+			return fmt.Errorf("Profiler: %s could not be opened.", fname)
 		}
 	}
 	ProfileEnabled = true
+	return nil
 }
 
 func EndProfiling() {
-- 
2.43.0


From fdbb49961cdc2ac210724d985f51128ccb543471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:22 +0000
Subject: [PATCH 41/64] fix: exec stops after reporting that its command is not
 a string

---
 prim_system.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prim_system.go b/prim_system.go
index 13c89c3..e762d59 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -275,6 +275,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if !StringP(First(args)) {
 		err = ProcessError(fmt.Sprintf("exec requires a string command, but received %s.", String(First(args))), env)
+		return
 	}
 	cmdString := StringValue(First(args))
 
-- 
2.43.0


From 0e35fb44af3cd868172a436b51c529f96343a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 42/64] fix: acons, pairlis and alist do not change the
 association list they extend

---
 data.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index 6f02cb2..7e33814 100644
--- a/data.go
+++ b/data.go
@@ -320,11 +320,23 @@ func Acons(car *Data, cdr *Data, alist *Data) *Data {
 		conscell := ConsCell{Car: &cell, Cdr: alist}
 		return &Data{Type: AlistType, Value: unsafe.Pointer(&conscell)}
 	} else {
-		((*ConsCell)(pair.Value)).Cdr = cdr
-		return alist
+		return withPairReplaced(alist, pair, cdr)
 	}
 }
 
+// withPairReplaced returns the alist with another value in the given pair. The
+// alist itself stays as it is.
+func withPairReplaced(alist *Data, pair *Data, value *Data) *Data {
+	var cell ConsCell
+	if Car(alist) == pair {
+		p := ConsCell{Car: Car(pair), Cdr: value}
+		cell = ConsCell{Car: &Data{Type: pair.Type, Value: unsafe.Pointer(&p)}, Cdr: Cdr(alist)}
+	} else {
+		cell = ConsCell{Car: Car(alist), Cdr: withPairReplaced(Cdr(alist), pair, value)}
+	}
+	return &Data{Type: alist.Type, Value: unsafe.Pointer(&cell)}
+}
+
 func Alist(d *Data) *Data {
 	if NilP(d) {
 		return nil
-- 
2.43.0


From c9ea532bf510f38e44e7cce0cfa8bbe0064762fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:11 +0000
Subject: [PATCH 43/64] fix: dissoc keeps the order of the other pairs, and the
 first pair of a key

---
 data.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/data.go b/data.go
index 7e33814..16fa683 100644
--- a/data.go
+++ b/data.go
@@ -768,7 +768,7 @@ func Assoc(key *Data, alist *Data) (result *Data, err error) {
 }
 
 func Dissoc(key *Data, alist *Data) (result *Data, err error) {
-	var newList *Data = nil
+	kept := make([]*Data, 0, Length(alist))
 	for c := alist; NotNilP(c); c = Cdr(c) {
 		pair := Car(c)
 		if !DottedPairP(pair) && !PairP(pair) {
@@ -776,10 +776,14 @@ func Dissoc(key *Data, alist *Data) (result *Data, err error) {
 			return
 		}
 		if !IsEqual(Car(pair), key) {
-			newList = Acons(Car(pair), Cdr(pair), newList)
+			kept = append(kept, pair)
 		}
 	}
-	return newList, nil
+	// from the end, so that the first pair of a key is the one that stays
+	for i := len(kept) - 1; i >= 0; i-- {
+		result = Acons(Car(kept[i]), Cdr(kept[i]), result)
+	}
+	return
 }
 
 func Copy(d *Data) *Data {
-- 
2.43.0


From 6aebdc59f7897c1e710725cffe0d340b413c7005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 44/64] fix: pairlis accepts an association list to extend

---
 prim_alist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_alist.go b/prim_alist.go
index d8a8b8d..866529a 100644
--- a/prim_alist.go
+++ b/prim_alist.go
@@ -65,7 +65,7 @@ func PairlisImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	result = Third(args)
 
 	if NotNilP(result) {
-		if !PairP(result) {
+		if !ListP(result) {
 			err = ProcessError("Third arg of pairlis must be an association list (if provided)", env)
 			return
 		}
-- 
2.43.0


From 32c286ba709b18dcb6723bd3fcd4dfcbc2736fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 45/64] fix: conversion to JSON keeps the colons that are part
 of a member name

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..180889a 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -239,7 +239,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 		frame.Mutex.RLock()
 		for k, v := range frame.Data {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
 		frame.Mutex.RUnlock()
-- 
2.43.0


From 135bd2eadbbdc7900ae40769bd72a415ea207385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:27 +0000
Subject: [PATCH 46/64] fix: JSON integers keep all their digits, large numbers
 do not overflow and a null document is not a crash

---
 json_frame_support.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 180889a..de9236c 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -8,8 +8,11 @@
 package golisp
 
 import (
+	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"math"
 	"reflect"
 	"strings"
@@ -160,13 +163,15 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return IntegerWithValue(int64(rv.Uint()))
 	case reflect.Float32, reflect.Float64:
-		floatValue := rv.Float()
-		if math.Trunc(floatValue) == floatValue {
-			return IntegerWithValue(int64(floatValue))
-		} else {
-			return FloatWithValue(float32(floatValue))
-		}
+		return jsonToLispNumber(rv.Float())
 	case reflect.String:
+		if number, ok := rv.Interface().(json.Number); ok {
+			if intValue, err := number.Int64(); err == nil {
+				return IntegerWithValue(intValue)
+			}
+			floatValue, _ := number.Float64()
+			return jsonToLispNumber(floatValue)
+		}
 		return StringWithValue(rv.String())
 	case reflect.Bool:
 		return BooleanWithValue(rv.Bool())
@@ -175,6 +180,14 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 	return nil
 }
 
+func jsonToLispNumber(floatValue float64) *Data {
+	if math.Trunc(floatValue) == floatValue && math.Abs(floatValue) < 1<<63 {
+		return IntegerWithValue(int64(floatValue))
+	} else {
+		return FloatWithValue(float32(floatValue))
+	}
+}
+
 func JsonToLispWithFrames(data interface{}) *Data {
 	if data == nil {
 		return nil
@@ -186,14 +199,21 @@ func JsonToLispWithFrames(data interface{}) *Data {
 func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 	b := []byte(jsonData)
 	var data interface{}
-	err := json.Unmarshal(b, &data)
+	decoder := json.NewDecoder(bytes.NewReader(b))
+	decoder.UseNumber() // a float64 can not hold every integer
+	err := decoder.Decode(&data)
+	if err == nil {
+		if _, extraErr := decoder.Token(); extraErr != io.EOF {
+			err = errors.New("unexpected data after the document")
+		}
+	}
 	if err != nil {
 		fmt.Printf("Returning empty frame because of badly formed json: '%s'\n --> %v\n", jsonData, err)
 		m := FrameMap{}
 		m.Data = make(FrameMapData, 0)
 		return FrameWithValue(&m)
 	}
-	return jsonToLispWithFramesReflect(reflect.ValueOf(data))
+	return JsonToLispWithFrames(data)
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
-- 
2.43.0


From 75d663009529651d0e1d54c0a75a47017b3d0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:55 +0000
Subject: [PATCH 47/64] fix: conversion to JSON does not keep a frame locked
 and ends for frames that contain themselves

---
 json_frame_support.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index de9236c..dc4f5a9 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -217,6 +217,11 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
+	return lispWithFramesToJson(d, nil)
+}
+
+// lispWithFramesToJson converts d, which is part of the frames in converting.
+func lispWithFramesToJson(d *Data, converting []*FrameMap) (result interface{}) {
 	if d == nil {
 		return ""
 	}
@@ -240,7 +245,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 	if PairP(d) {
 		ary := make([]interface{}, 0, Length(d))
 		for c := d; NotNilP(c); c = Cdr(c) {
-			ary = append(ary, LispWithFramesToJson(Car(c)))
+			ary = append(ary, lispWithFramesToJson(Car(c), converting))
 		}
 		return ary
 	}
@@ -256,13 +261,17 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 	if FrameP(d) {
 		dict := make(map[string]interface{}, Length(d))
 		frame := FrameValue(d)
-		frame.Mutex.RLock()
-		for k, v := range frame.Data {
+		for _, f := range converting {
+			if f == frame { // it contains itself, which JSON can not express
+				return ""
+			}
+		}
+		converting = append(converting, frame)
+		for k, v := range frame.Clone().Data {
 			if !FunctionP(v) {
-				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = lispWithFramesToJson(v, converting)
 			}
 		}
-		frame.Mutex.RUnlock()
 		return dict
 	}
 
-- 
2.43.0


From 57af4e4801b1baa12f9c48c464cabc77b4acdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:37 +0000
Subject: [PATCH 48/64] fix: make-channel reports a size that is too big as an
 error

---
 prim_channel.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prim_channel.go b/prim_channel.go
index 44d65f2..deb0f67 100644
--- a/prim_channel.go
+++ b/prim_channel.go
@@ -47,7 +47,17 @@ func MakeChannelImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 			return
 		}
 
-		c = make(Channel, int(channelLength))
+		func() {
+			defer func() {
+				if e := recover(); e != nil {
+					err = ProcessError(fmt.Sprintf("channel size is too big; got %d.", channelLength), env)
+				}
+			}()
+			c = make(Channel, int(channelLength))
+		}()
+		if err != nil {
+			return
+		}
 	} else {
 		c = make(Channel)
 	}
-- 
2.43.0


From 05c02cea87c0abe82680dde2887e14327fb885f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 49/64] fix: quasiquote keeps the tail of a dotted list and
 evaluates an unquote in it

---
 prim_macros.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/prim_macros.go b/prim_macros.go
index 3da49b1..3a00900 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -78,11 +78,22 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		}
 	} else {
 		parts := make([]*Data, 0, Length(Cdr(sexpr)))
-		for _, exp := range ToArray(sexpr) {
+		var tail *Data // what follows the dot, or nothing
+		for cell := sexpr; NotNilP(cell); cell = Cdr(cell) {
+			// . ,x is read as the two elements unquote and x
+			dotted := !ListP(cell) || (cell != sexpr && Length(cell) == 2 && SymbolP(Car(cell)) && StringValue(Car(cell)) == "unquote")
+			exp := cell
+			if !dotted {
+				exp = Car(cell)
+			}
 			processed, err := processQuasiquoted(exp, level, env)
 			if err != nil {
 				return nil, err
 			}
+			if dotted {
+				tail = Car(processed)
+				break
+			}
 			if processed != nil {
 				parts = append(parts, processed)
 			}
@@ -91,6 +102,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		if err != nil {
 			return nil, err
 		}
+		if NotNilP(tail) {
+			flat = ArrayToListWithTail(ToArray(flat), tail)
+		}
 		return Cons(flat, nil), nil
 	}
 }
-- 
2.43.0


From ad513caf8fbd37cb4776d7df93f1aab90305619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:16 +0000
Subject: [PATCH 50/64] fix: the reader keeps NUL characters

---
 tokenizer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index a4989e4..0a161e3 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -50,6 +50,8 @@ type Tokenizer struct {
 	NextCh         rune
 	Eof            bool
 	AlmostEof      bool
+	// NextCh has been read from Source and is the next CurrentCh
+	haveNext bool
 }
 
 // the tokenizer of each open port that has been read from: it holds the input
@@ -90,7 +92,13 @@ func forgetFileTokenizer(src *os.File) {
 
 func (self *Tokenizer) Advance() {
 	var err error
-	self.CurrentCh, _, err = self.Source.ReadRune()
+	// the lookahead is kept here: a rune given back to Source is lost if it is NUL
+	if self.haveNext {
+		self.CurrentCh = self.NextCh
+		self.haveNext = false
+	} else {
+		self.CurrentCh, _, err = self.Source.ReadRune()
+	}
 	if err == io.EOF || self.CurrentCh == -1 {
 		self.Eof = true
 		self.NextCh = 0
@@ -99,7 +107,7 @@ func (self *Tokenizer) Advance() {
 		if err == io.EOF || self.NextCh == -1 {
 			self.AlmostEof = true
 		} else {
-			self.Source.UnreadRune()
+			self.haveNext = true
 		}
 	}
 }
-- 
2.43.0


From 2b7290d6099c17c107387bf42744c8d197973172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:59 +0000
Subject: [PATCH 51/64] fix: append! to something that is not a list is an
 error

---
 prim_list_manipulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..720ae41 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -8,6 +8,7 @@
 package golisp
 
 import (
+	"fmt"
 	"sort"
 )
 
@@ -94,6 +95,10 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	if err != nil {
 		return
 	}
+	if !ListP(firstList) {
+		err = ProcessError(fmt.Sprintf("append! requires a list as its first argument, but got %s.", String(firstList)), env)
+		return
+	}
 
 	second, err := Eval(Cadr(args), env)
 	if err != nil {
-- 
2.43.0


From 6a7db2ddcee1f8be9b5a3f8e026db6260581e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 52/64] fix: append! reports a dotted first list instead of
 writing through a non-pair

---
 prim_list_manipulation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index 720ae41..fef0052 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -100,6 +100,13 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	for c := firstList; NotNilP(c); c = Cdr(c) {
+		if !ListP(c) {
+			err = ProcessError(fmt.Sprintf("append! requires a proper list as its first argument, but got %s.", String(firstList)), env)
+			return
+		}
+	}
+
 	second, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
-- 
2.43.0


From d30f3f06ad3b808a746b703dfc5f4f81e53a6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:30 +0000
Subject: [PATCH 53/64] fix: the parameters and locals of a method hide slots
 in nested scopes as well

---
 symbol_table_frame.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index f8f9494..804c43f 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -264,7 +264,7 @@ func (self *SymbolTableFrame) BindToProtected(symbol *Data, value *Data) *Data {
 }
 
 func (self *SymbolTableFrame) SetTo(symbol *Data, value *Data) (result *Data, err error) {
-	localBinding, found := self.findBindingInLocalFrameFor(symbol)
+	localBinding, found := self.findBindingInFrameContextFor(symbol)
 	if found {
 		if localBinding.Protected {
 			return nil, fmt.Errorf("%s is a protected binding", StringValue(symbol))
@@ -297,6 +297,17 @@ func (self *SymbolTableFrame) findBindingInLocalFrameFor(symbol *Data) (b *Bindi
 	return self.BindingNamed(StringValue(symbol))
 }
 
+// findBindingInFrameContextFor looks in the environment and those around it that
+// have the same frame: the locals of a method, which take precedence over slots.
+func (self *SymbolTableFrame) findBindingInFrameContextFor(symbol *Data) (b *Binding, found bool) {
+	for env := self; env != nil && env.Frame == self.Frame; env = env.Parent {
+		if b, found = env.BindingNamed(StringValue(symbol)); found {
+			return
+		}
+	}
+	return
+}
+
 func (self *SymbolTableFrame) BindLocallyTo(symbol *Data, value *Data) (*Data, error) {
 	binding, found := self.findBindingInLocalFrameFor(symbol)
 	if found {
@@ -322,7 +333,7 @@ func withSlotFunction(value *Data, slotFunction bool) *Data {
 }
 
 func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFunction bool) *Data {
-	localBinding, found := self.findBindingInLocalFrameFor(symbol)
+	localBinding, found := self.findBindingInFrameContextFor(symbol)
 	if found {
 		return withSlotFunction(localBinding.Val, false)
 	}
-- 
2.43.0


From 7894a9577a6b6439d8afdf853f052c5c7b91e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 54/64] fix: copy duplicates strings too, as they can be
 changed in place

---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index 16fa683..1247c45 100644
--- a/data.go
+++ b/data.go
@@ -834,6 +834,8 @@ func copyData(d *Data, copying map[*FrameMap]*Data) *Data {
 			delete(copying, frame)
 			return newFrame
 		}
+	case StringType:
+		return StringWithValue(StringValue(d))
 	case BoxedObjectType:
 		{
 			if ObjectType(d) == "[]byte" {
-- 
2.43.0


From f7220d73ca6059da99a9836fed7c840b7038e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:59 +0000
Subject: [PATCH 55/64] fix: LispToJson converts floats and booleans too

---
 json_support.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json_support.go b/json_support.go
index 06d837d..bc67ce6 100644
--- a/json_support.go
+++ b/json_support.go
@@ -76,6 +76,14 @@ func LispToJson(d *Data) (result interface{}) {
 		return IntegerValue(d)
 	}
 
+	if FloatP(d) {
+		return FloatValue(d)
+	}
+
+	if BooleanP(d) {
+		return BooleanValue(d)
+	}
+
 	if StringP(d) || SymbolP(d) {
 		return StringValue(d)
 	}
-- 
2.43.0


From b576f386c2505768941bead4a0e237d70f48af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 56/64] fix: JsonStringToLisp keeps every digit of integers

---
 json_support.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/json_support.go b/json_support.go
index bc67ce6..7025b9b 100644
--- a/json_support.go
+++ b/json_support.go
@@ -8,14 +8,15 @@
 package golisp
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
-	"math"
+	"io"
 )
 
-func JsonToLisp(json interface{}) (result *Data) {
-	mapValue, ok := json.(map[string]interface{})
+func JsonToLisp(data interface{}) (result *Data) {
+	mapValue, ok := data.(map[string]interface{})
 	if ok {
 		var alist *Data
 		for key, val := range mapValue {
@@ -25,7 +26,7 @@ func JsonToLisp(json interface{}) (result *Data) {
 		return alist
 	}
 
-	arrayValue, ok := json.([]interface{})
+	arrayValue, ok := data.([]interface{})
 	if ok {
 		var ary *Data
 		for _, val := range arrayValue {
@@ -35,21 +36,26 @@ func JsonToLisp(json interface{}) (result *Data) {
 		return Reverse(ary)
 	}
 
-	numValue, ok := json.(float64)
+	number, ok := data.(json.Number)
 	if ok {
-		if math.Trunc(numValue) == numValue {
-			return IntegerWithValue(int64(numValue))
-		} else {
-			return FloatWithValue(float32(numValue))
+		if intValue, err := number.Int64(); err == nil {
+			return IntegerWithValue(intValue)
 		}
+		floatValue, _ := number.Float64()
+		return jsonToLispNumber(floatValue)
 	}
 
-	strValue, ok := json.(string)
+	numValue, ok := data.(float64)
+	if ok {
+		return jsonToLispNumber(numValue)
+	}
+
+	strValue, ok := data.(string)
 	if ok {
 		return StringWithValue(strValue)
 	}
 
-	boolValue, ok := json.(bool)
+	boolValue, ok := data.(bool)
 	if ok {
 		return BooleanWithValue(boolValue)
 	}
@@ -60,7 +66,14 @@ func JsonToLisp(json interface{}) (result *Data) {
 func JsonStringToLisp(jsonData string) (result *Data) {
 	b := []byte(jsonData)
 	var data interface{}
-	err := json.Unmarshal(b, &data)
+	decoder := json.NewDecoder(bytes.NewReader(b))
+	decoder.UseNumber() // a float64 can not hold every integer
+	err := decoder.Decode(&data)
+	if err == nil {
+		if _, extraErr := decoder.Token(); extraErr != io.EOF {
+			err = errors.New("unexpected data after the document")
+		}
+	}
 	if err != nil {
 		panic(errors.New(fmt.Sprintf("Badly formed json: '%s'", jsonData)))
 	}
-- 
2.43.0


From 89d54054fa384d6f0feb951d4916a579f2a9b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 57/64] fix: TransformJson does not evaluate the JSON data it
 passes on

---
 json_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_support.go b/json_support.go
index 7025b9b..ed2c8d9 100644
--- a/json_support.go
+++ b/json_support.go
@@ -140,7 +140,7 @@ func TransformJson(xform *Data, jsonNode *Data, parentNode *Data) (xformedJson *
 	if err != nil {
 		return
 	}
-	newData, err = Apply(transformFunction, args, Global)
+	newData, err = ApplyWithoutEval(transformFunction, args, Global)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 5cb3a94b1a7dc8a4c5b20fad2249a5f3fca11c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:28 +0000
Subject: [PATCH 58/64] fix: list-directory rejects arguments that are not
 strings

---
 prim_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index 5c0b751..fe52ae2 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -178,9 +178,17 @@ func EofObjectImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 }
 
 func ListDirectoryImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
+	if !StringP(Car(args)) {
+		err = ProcessError(fmt.Sprintf("list-directory requires a string directory name, but was given %s.", String(Car(args))), env)
+		return
+	}
 	dir := StringValue(Car(args))
 	fpart := "*"
 	if Length(args) == 2 {
+		if !StringP(Cadr(args)) {
+			err = ProcessError(fmt.Sprintf("list-directory requires a string pattern, but was given %s.", String(Cadr(args))), env)
+			return
+		}
 		fpart = StringValue(Cadr(args))
 	}
 	pattern := filepath.Join(dir, fpart)
-- 
2.43.0


From 7bb7e8b3221c07bd8b804dc672b7dc18712ce1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 59/64] fix: assert-memq evaluates its object once

---
 lisp/testing.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lisp/testing.lsp b/lisp/testing.lsp
index f387a45..26ad93b 100644
--- a/lisp/testing.lsp
+++ b/lisp/testing.lsp
@@ -134,7 +134,7 @@
 
 (defmacro (assert-memq sexpr object)
   `(let* ((searched-for ,object)
-          (result (memq ,object ,sexpr))
+          (result (memq searched-for ,sexpr))
           (msg (format #f "(assert-memq ~A ~S)" ',sexpr ',object)))
      (if result
          (log-pass msg)
-- 
2.43.0


From 1847384fc62b3f1f5b7121a6399099a3ad9bbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:09 +0000
Subject: [PATCH 60/64] fix: map rejects a non-list that follows an empty list

---
 prim_list_functions.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index f1d2d07..28ae482 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -56,14 +56,11 @@ func MapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			err = ProcessError(fmt.Sprintf("map needs lists as its other arguments, but got %s.", String(col)), env)
 			return
 		}
-		if NilP(col) || col == nil {
-			return
-		}
 		collections = append(collections, col)
 		loopCount = intMin(loopCount, int64(Length(col)))
 	}
 
-	if loopCount == math.MaxInt64 {
+	if loopCount == math.MaxInt64 || loopCount == 0 {
 		return
 	}
 
-- 
2.43.0


From 2e16b9728e04a29dee1ac361983ca23abd1e8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:04 +0000
Subject: [PATCH 61/64] fix: assertions of the test framework do not capture
 the variables of the test

---
 lisp/testing.lsp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/lisp/testing.lsp b/lisp/testing.lsp
index 26ad93b..951717f 100644
--- a/lisp/testing.lsp
+++ b/lisp/testing.lsp
@@ -100,43 +100,43 @@
 
 
 (defmacro (assert-eq sexpr expected-sexpr)
-  `(let* ((actual ,sexpr)
-          (expected ,expected-sexpr)
-          (msg (format #f "(assert-eq ~A ~A)" ',sexpr ',expected-sexpr)))
+  `(let ((actual ,sexpr)
+         (expected ,expected-sexpr)
+         (msg (format #f "(assert-eq ~A ~A)" ',sexpr ',expected-sexpr)))
      (if (eq? actual expected)
          (log-pass msg)
          (log-failure msg (format #f "expected ~A, but was ~A" expected actual)))))
 
 
 (defmacro (assert-neq sexpr expected-sexpr)
-  `(let* ((actual ,sexpr)
-          (expected ,expected-sexpr)
-          (msg (format #f "(assert-neq ~A ~A)" ',sexpr ',expected-sexpr)))
+  `(let ((actual ,sexpr)
+         (expected ,expected-sexpr)
+         (msg (format #f "(assert-neq ~A ~A)" ',sexpr ',expected-sexpr)))
      (if (neq? actual expected)
          (log-pass msg)
          (log-failure msg (format #f "did not expect ~A, but it was" expected)))))
 
 (defmacro (assert-error **sexpr**)
-  `(let ((msg (format #f "(assert-error ~A)" ',**sexpr**)))
-     (on-error ,**sexpr**
-               (lambda (err)
-                 (log-pass msg))
-               (lambda ()
-                 (log-failure msg "expected an error, but there wasn't")))))
+  `(on-error ,**sexpr**
+             (lambda (err)
+               (log-pass (format #f "(assert-error ~A)" ',**sexpr**)))
+             (lambda ()
+               (log-failure (format #f "(assert-error ~A)" ',**sexpr**)
+                            "expected an error, but there wasn't"))))
 
 (defmacro (assert-nerror **sexpr**)
-  `(let ((msg (format #f "(assert-nerror ~A)" ',**sexpr**)))
-     (on-error ,**sexpr**
-               (lambda (err)
-                 (log-failure msg (format #f "expected no error, but error was ~A" err)))
-               (lambda ()
-                 (log-pass msg)))))
+  `(on-error ,**sexpr**
+             (lambda (err)
+               (log-failure (format #f "(assert-nerror ~A)" ',**sexpr**)
+                            (format #f "expected no error, but error was ~A" err)))
+             (lambda ()
+               (log-pass (format #f "(assert-nerror ~A)" ',**sexpr**)))))
 
 (defmacro (assert-memq sexpr object)
-  `(let* ((searched-for ,object)
-          (result (memq searched-for ,sexpr))
-          (msg (format #f "(assert-memq ~A ~S)" ',sexpr ',object)))
-     (if result
+  `(let ((searched-for ,object)
+         (collection ,sexpr)
+         (msg (format #f "(assert-memq ~A ~S)" ',sexpr ',object)))
+     (if (memq searched-for collection)
          (log-pass msg)
          (log-failure msg (format #f "expected ~A to contain ~S, but it didn't" ',sexpr searched-for)))))
 
-- 
2.43.0


From 10fa2de1afaab6250e566575ea90f44f3dbafb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:17 +0000
Subject: [PATCH 62/64] fix: the value the debugger is told to return is that
 of the evaluation it stopped at

---
 data.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 1247c45..b699078 100644
--- a/data.go
+++ b/data.go
@@ -1175,6 +1175,14 @@ func logResult(result *Data, env *SymbolTableFrame) {
 	}
 }
 
+// takeDebugReturnValue returns the value the debugger was told to return from
+// the evaluation it stopped at, or nil if there is none.
+func takeDebugReturnValue() (result *Data) {
+	result = DebugReturnValue
+	DebugReturnValue = nil
+	return
+}
+
 func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data, err error) {
 	if IsInteractive && !DebugEvalInDebugRepl {
 		env.CurrentCode.PushFront(fmt.Sprintf("Eval %s", String(d)))
@@ -1185,14 +1193,16 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 	if DebugSingleStep {
 		DebugSingleStep = false
 		DebugRepl(env)
+		result = takeDebugReturnValue()
 	}
 
 	if DebugCurrentFrame != nil && env == DebugCurrentFrame.Previous {
 		DebugCurrentFrame = nil
 		DebugRepl(env)
+		result = takeDebugReturnValue()
 	}
 
-	if d != nil {
+	if d != nil && result == nil {
 		switch d.Type {
 		case ConsCellType:
 			{
@@ -1216,6 +1226,10 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 
 				if !DebugSingleStep && TypeOf(function) == FunctionType && DebugOnEntry.Has(FunctionValue(function).Name) {
 					DebugRepl(env)
+					result = takeDebugReturnValue()
+					if result != nil {
+						break
+					}
 				}
 
 				args := Cdr(d)
-- 
2.43.0


From 8d3ada83037b52aa0dad5175eeff28f817945c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:22 +0000
Subject: [PATCH 63/64] fix: with debug-on-error set, an error that reaches the
 REPL opens the debugger instead of ending the process

---
 repl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repl.go b/repl.go
index 2a5898d..43a8308 100644
--- a/repl.go
+++ b/repl.go
@@ -30,6 +30,7 @@ func Repl() {
 		DebugCurrentFrame = nil
 		DebugSingleStep = false
 		DebugEvalInDebugRepl = false
+		DebugReturnValue = nil
 		replEnv.CurrentCode = list.New()
 		inputp := ReadLine(&prompt)
 		if inputp == nil {
@@ -50,7 +51,7 @@ func Repl() {
 					if err != nil {
 						fmt.Printf("Error in evaluation: %s\n", err)
 						if DebugOnError {
-							DebugRepl(DebugErrorEnv)
+							DebugRepl(replEnv)
 						}
 					} else {
 						fmt.Printf("==> %s\n", String(d))
-- 
2.43.0


From 3dc0ec78f28ca17b8573189fbd36fc10c69162a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:27 +0000
Subject: [PATCH 64/64] fix: the debugger's :r reports text it cannot read, and
 can return nil

---
 prim_debug.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim_debug.go b/prim_debug.go
index d0763f1..423ac13 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -204,8 +204,14 @@ func DebugRepl(env *SymbolTableFrame) {
 					QuitImpl(nil, nil)
 				case "r":
 					DebugEvalInDebugRepl = true
+					var d *Data
 					code, err := Parse(strings.Join(tokens[1:], " "))
-					d, err := Eval(code, env)
+					if err == nil {
+						d, err = Eval(code, env)
+					}
+					if d == nil {
+						d = EmptyCons()
+					}
 					DebugEvalInDebugRepl = false
 					if err != nil {
 						fmt.Printf("Error in evaluation: %s\n", err)
-- 
2.43.0

