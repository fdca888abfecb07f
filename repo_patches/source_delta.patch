From 0197b9bee056dfe9a11881a8e41ad3b3f4d05c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 01/60] fix: the ">=" operator was parsed as an unknown
 operator and returned its left operand

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 0da0b8a..5b8ba85 100644
--- a/ast.go
+++ b/ast.go
@@ -838,7 +838,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From ecca1100e0653161cb4237781302bc9f71ff2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:37 +0000
Subject: [PATCH 02/60] fix: the power operator indexed past its operands, and
 failed for a null base

---
 arithmeticeval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..de5de55 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,13 +53,13 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
-- 
2.43.0


From 1da2bd24175d8bb2e6c7416ffaa101f51beb2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:38 +0000
Subject: [PATCH 03/60] fix: constant arithmetic evaluated again gave a
 *RValue, which panicked where an RValue is expected

---
 arithmeticeval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index de5de55..33d5d2f 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -32,7 +32,7 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 		return ret, ErrInvalidUnaryOperation
 	}
 	if ret.IsConst() {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -80,7 +80,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		ret.Const = ret.Const && val.IsConst()
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -267,7 +267,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 		return nil, err
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -502,7 +502,7 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
-- 
2.43.0


From dca19709a76337c7d97937a56ec44f063a7c8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:22 +0000
Subject: [PATCH 04/60] fix: multiplying or dividing by null was an error
 instead of null

---
 arithmeticeval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 33d5d2f..19b5534 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -222,7 +222,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
+			if ret.Value == nil || val.Get() == nil {
 				return RValue{}, nil
 			}
 			ret.Const = ret.Const && val.IsConst()
-- 
2.43.0


From 53eddc63cdd565d0c4419e2d7c23b439d1052b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 05/60] fix: an error in a chain of multiplications was lost
 when more operands followed

---
 arithmeticeval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 19b5534..55bc5ba 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -261,11 +261,11 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			default:
 				err = ErrInvalidMultiplicativeOperation
 			}
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
-	if err != nil {
-		return nil, err
-	}
 	if ret.Const {
 		expr.constValue = ret
 	}
-- 
2.43.0


From 8da53afbf70f1777b5e1d586932227f9f4d72d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:26 +0000
Subject: [PATCH 06/60] fix: scaling a duration by a float truncated the float,
 and dividing by 0.5 panicked

---
 arithmeticeval.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 55bc5ba..b57aed7 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -172,24 +172,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
-- 
2.43.0


From 4e57df34e52872c04446b7b0d155dd9212c356d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:27 +0000
Subject: [PATCH 07/60] fix: adding two lists gave null

---
 arithmeticeval.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index b57aed7..87e0753 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -372,6 +372,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
@@ -473,7 +474,9 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
-				ret = addlistlist(retValue, operandValue)
+				sum := addlistlist(retValue, operandValue)
+				ret.Value = sum.Value
+				ret.Const = ret.Const && sum.Const
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
-- 
2.43.0


From 0a9a6003a331c1c17958cd1a1ce33bd5ad949af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:29 +0000
Subject: [PATCH 08/60] fix: IN rejected every list, and accepted everything
 that is not a list

---
 eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b13ff57..f386c57 100644
--- a/eval.go
+++ b/eval.go
@@ -123,10 +123,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		if inputValue.Get() == nil {
 			return RValue{}, nil
-- 
2.43.0


From 83068e50498ebc2d0aeb50f55240cd6bd3f95069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 09/60] fix: additions and subtractions were not applied in the
 order they are written

---
 arithmeticeval.go | 19 +++++--------------
 ast.go            | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 87e0753..2cd3d3e 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -380,8 +380,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if expr.constValue != nil {
 		return expr.constValue, nil
 	}
-	if len(expr.add) == 1 && len(expr.sub) == 0 {
-		ret, err := expr.add[0].Evaluate(ctx)
+	if len(expr.terms) == 1 {
+		ret, err := expr.terms[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
@@ -484,21 +484,12 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
+	for i := range expr.terms {
+		val, err := expr.terms[i].expr.Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
-		}
-		if err = accumulate(val, true); err != nil {
+		if err = accumulate(val, expr.terms[i].sub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index 5b8ba85..c5c27d0 100644
--- a/ast.go
+++ b/ast.go
@@ -122,12 +122,16 @@ type partialComparisonExpression struct {
 }
 
 type addOrSubtractExpression struct {
-	add []Expression
-	sub []Expression
+	terms []addOrSubtractTerm
 
 	constValue Value
 }
 
+type addOrSubtractTerm struct {
+	sub  bool
+	expr Expression
+}
+
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
 
@@ -670,26 +674,26 @@ func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Express
 //
 func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) Expression {
 	ret := &addOrSubtractExpression{}
-	target := &ret.add
+	sub := false
 	count := ctx.GetChildCount()
 	for child := 0; child < count; child++ {
 		ch := ctx.GetChild(child)
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
-			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.terms = append(ret.terms, addOrSubtractTerm{sub: sub, expr: oC_MultiplyDivideModuloExpression(expr)})
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
 				if term.GetText() == "+" {
-					target = &ret.add
+					sub = false
 				} else if term.GetText() == "-" {
-					target = &ret.sub
+					sub = true
 				}
 			}
 		}
 	}
-	if len(ret.add) == 1 && len(ret.sub) == 0 {
-		return ret.add[0]
+	if len(ret.terms) == 1 {
+		return ret.terms[0].expr
 	}
 	return ret
 }
-- 
2.43.0


From 96cdb9cb13ad8bf73c2abfba5dea57af41254ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 10/60] fix: adding to a value that cannot be added to was
 silently ignored

---
 arithmeticeval.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 2cd3d3e..7272683 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -480,6 +480,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
-- 
2.43.0


From d09d476901c5507cd7443f302ac1886ef9ea7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 11/60] fix: comparing integers that are far apart overflowed
 and gave the wrong order

---
 relationaleval.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..5d8f1a6 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -27,7 +27,13 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			if value1 == value2 {
+				return 0, nil
+			}
+			if value1 < value2 {
+				return -1, nil
+			}
+			return 1, nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
-- 
2.43.0


From 2890289adcc71f14190b452053c44396086e2e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:03 +0000
Subject: [PATCH 12/60] fix: a later date, time, or date and time compared
 equal to an earlier one

---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 5d8f1a6..5f7f0be 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -101,7 +101,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -113,7 +113,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -125,7 +125,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From 501c649aeb14d9b9da3addbf80db5b056c33ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 13/60] fix: two durations could each be less than the other

---
 relationaleval.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 5f7f0be..caab85c 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -77,14 +77,23 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
 				return 0, nil
 			}
-			if value1.Days < dur.Days {
-				return -1, nil
+			if value1.Months != dur.Months {
+				if value1.Months < dur.Months {
+					return -1, nil
+				}
+				return 1, nil
 			}
-			if value1.Months < dur.Months {
-				return -1, nil
+			if value1.Days != dur.Days {
+				if value1.Days < dur.Days {
+					return -1, nil
+				}
+				return 1, nil
 			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
+			if value1.Seconds != dur.Seconds {
+				if value1.Seconds < dur.Seconds {
+					return -1, nil
+				}
+				return 1, nil
 			}
 			if value1.Nanos < dur.Nanos {
 				return -1, nil
-- 
2.43.0


From 8bbd8fff36014a6fca6dec396cffca645c70614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 14/60] fix: a chain of comparisons such as 1 < 3 < 2 only
 compared its first and last operands

---
 relationaleval.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index caab85c..3bc0bbb 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -150,7 +150,7 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if val.Get() == nil {
 		return RValue{}, nil
 	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	ret := RValue{Value: true, Const: val.IsConst()}
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
@@ -163,21 +163,27 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		var holds bool
 		switch expr.second[i].op {
 		case "=":
-			ret.Value = result == 0
+			holds = result == 0
 		case "<>":
-			ret.Value = result != 0
+			holds = result != 0
 		case "<":
-			ret.Value = result < 0
+			holds = result < 0
 		case "<=":
-			ret.Value = result <= 0
+			holds = result <= 0
 		case ">":
-			ret.Value = result > 0
+			holds = result > 0
 		case ">=":
-			ret.Value = result >= 0
+			holds = result >= 0
 		}
 		ret.Const = ret.Const && second.IsConst()
+		// a < b < c means a < b AND b < c
+		if !holds {
+			ret.Value = false
+		}
+		val = second
 	}
 	return ret, nil
 }
-- 
2.43.0


From 59c38f6161197782a38d2d108d565561c92093a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:59 +0000
Subject: [PATCH 15/60] fix: null AND false was null instead of false, and null
 OR true was null instead of true

---
 relationaleval.go | 60 +++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 3bc0bbb..50f7548 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -204,31 +204,25 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: true, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			// Unknown, unless another operand is false
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if !bval {
+			ret.Value = false
+			break
 		}
 	}
 	return ret, nil
@@ -263,31 +257,25 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	ret := RValue{Value: false, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			// Unknown, unless another operand is true
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if bval {
+			ret.Value = true
+			break
 		}
 	}
 	return ret, nil
-- 
2.43.0


From b7663ae9bac2b5c11820999022c86944d770118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:01 +0000
Subject: [PATCH 16/60] fix: a chain of comparisons with a null operand was
 null even when another comparison in it is false

---
 relationaleval.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 50f7548..0e7d4ff 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -147,17 +147,20 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 
-	if val.Get() == nil {
-		return RValue{}, nil
-	}
 	ret := RValue{Value: true, Const: val.IsConst()}
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if second.Get() == nil {
-			return RValue{}, nil
+		ret.Const = ret.Const && second.IsConst()
+		if val.Get() == nil || second.Get() == nil {
+			// Unknown, unless another comparison of the chain is false
+			if ret.Value == true {
+				ret.Value = nil
+			}
+			val = second
+			continue
 		}
 		result, err := comparePrimitiveValues(val.Get(), second.Get())
 		if err != nil {
@@ -178,7 +181,6 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		case ">=":
 			holds = result >= 0
 		}
-		ret.Const = ret.Const && second.IsConst()
 		// a < b < c means a < b AND b < c
 		if !holds {
 			ret.Value = false
-- 
2.43.0


From e42716d2e03aca457755afa4d7620f01811759c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:30 +0000
Subject: [PATCH 17/60] fix: IsValueSame reported equal primitive values,
 nulls, paths and edges as different, and incomparable ones as the same

---
 value.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/value.go b/value.go
index bbafe07..176680e 100644
--- a/value.go
+++ b/value.go
@@ -148,10 +148,16 @@ func ValueOf(in interface{}) Value {
 
 // IsValueSame compares two values and decides if the two are the same
 func IsValueSame(v, v2 Value) bool {
+	if v == nil || v2 == nil {
+		return v == v2
+	}
+	if v.Get() == nil || v2.Get() == nil {
+		return v.Get() == nil && v2.Get() == nil
+	}
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
@@ -214,15 +220,37 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1 == nil || val2 == nil {
+			return val1 == val2
+		}
+		if val1.NumEdges() != val2.NumEdges() {
 			return false
 		}
+		if val1.NumEdges() == 0 {
+			return val1.First() == val2.First()
+		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) || val1.GetNode(i) != val2.GetNode(i) {
+				return false
+			}
+		}
+		return true
+
+	case *lpg.Edge:
+		val2, ok := v2.Get().(*lpg.Edge)
+		return ok && val1 == val2
+
+	case []*lpg.Edge:
+		val2, ok := v2.Get().([]*lpg.Edge)
+		if !ok || len(val1) != len(val2) {
+			return false
+		}
+		for i := range val1 {
+			if val1[i] != val2[i] {
 				return false
 			}
 		}
-- 
2.43.0


From 0ea1c9a2ceb524a79c8682f74bdf943a6b6f0713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:32 +0000
Subject: [PATCH 18/60] fix: looking for a row in a result set stopped at the
 first row of a different width, and panicked on different columns

---
 resultset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..0e1540d 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,12 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			v, exists := row[i]
+			if !exists || !IsValueSame(r[i], v) {
 				found = false
 				break
 			}
-- 
2.43.0


From 7688c8490c8d0a66267db8606f2719a5e70ee285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 19/60] fix: UNION kept the duplicate rows of its first query

---
 resultset.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/resultset.go b/resultset.go
index 0e1540d..46ac4dd 100644
--- a/resultset.go
+++ b/resultset.go
@@ -76,6 +76,17 @@ func (r *ResultSet) find(row map[string]Value) int {
 	return -1
 }
 
+// removeDuplicates keeps the first of the rows that have the same values
+func (r *ResultSet) removeDuplicates() {
+	unique := ResultSet{}
+	for _, row := range r.Rows {
+		if unique.find(row) == -1 {
+			unique.Rows = append(unique.Rows, row)
+		}
+	}
+	r.Rows = unique.Rows
+}
+
 // Column returns a column of results as a value
 func (r *ResultSet) Column(key string) []Value {
 	ret := make([]Value, 0)
@@ -128,6 +139,9 @@ func (r *ResultSet) Add(rs ResultSet) {
 
 // Union adds the src resultset to this. If all is set, it adds all rows, otherwise, it adds unique rows
 func (r *ResultSet) Union(src ResultSet, all bool) error {
+	if !all {
+		r.removeDuplicates()
+	}
 	for _, sourceRow := range src.Rows {
 		appnd := all
 		if !appnd && r.find(sourceRow) == -1 {
-- 
2.43.0


From a7db525fbcdaf8a56565e9052a0c3ceb6a36ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:35 +0000
Subject: [PATCH 20/60] fix: escape sequences of string literals were not
 decoded, so EscapeStringLiteral did not round trip

---
 ast.go     |  2 +-
 literal.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index c5c27d0..5aefaaf 100644
--- a/ast.go
+++ b/ast.go
@@ -1281,7 +1281,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeString(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
diff --git a/literal.go b/literal.go
index 8d03a98..26facca 100644
--- a/literal.go
+++ b/literal.go
@@ -1,7 +1,9 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
+	"unicode"
 )
 
 func (literal intLiteral) Evaluate(ctx *EvalContext) (Value, error) {
@@ -113,6 +115,58 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 	return
 }
 
+// unescapeString returns s with the escape sequences of a string
+// literal replaced by the characters they stand for
+func unescapeString(s string) string {
+	if !strings.ContainsRune(s, '\\') {
+		return s
+	}
+	bld := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			bld.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'b', 'B':
+			bld.WriteByte('\b')
+		case 'f', 'F':
+			bld.WriteByte('\f')
+		case 'n', 'N':
+			bld.WriteByte('\n')
+		case 'r', 'R':
+			bld.WriteByte('\r')
+		case 't', 'T':
+			bld.WriteByte('\t')
+		case 'u', 'U':
+			// 8 hex digits if there are that many, 4 otherwise
+			digits := s[i+1:]
+			n := 8
+			code, err := uint64(0), error(strconv.ErrSyntax)
+			if len(digits) >= n {
+				code, err = strconv.ParseUint(digits[:n], 16, 32)
+			}
+			if err != nil || code > unicode.MaxRune {
+				n = 4
+				if len(digits) >= n {
+					code, err = strconv.ParseUint(digits[:n], 16, 32)
+				}
+			}
+			if err != nil {
+				bld.WriteByte('\\')
+				bld.WriteByte(s[i])
+				continue
+			}
+			bld.WriteRune(rune(code))
+			i += n
+		default: // \\ \' \"
+			bld.WriteByte(s[i])
+		}
+	}
+	return bld.String()
+}
+
 // EscapeLabelLiteral escape a literal that can be used as a label. It
 // returns `s`
 func EscapeLabelLiteral(s string) string {
-- 
2.43.0


From b42fa35664af63835420ac5ed97273a955ebcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 21/60] fix: names that contain a backtick could not be escaped

---
 ast.go     | 2 +-
 literal.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast.go b/ast.go
index 5aefaaf..c393719 100644
--- a/ast.go
+++ b/ast.go
@@ -870,7 +870,7 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		return symbolicName(strings.ReplaceAll(text[1:len(text)-1], "``", "`"))
 	}
 	return symbolicName(ctx.GetText())
 }
diff --git a/literal.go b/literal.go
index 26facca..04589d0 100644
--- a/literal.go
+++ b/literal.go
@@ -170,13 +170,13 @@ func unescapeString(s string) string {
 // EscapeLabelLiteral escape a literal that can be used as a label. It
 // returns `s`
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
 // property key. Returns `s`
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
-- 
2.43.0


From 528b68af81219a960712de1c27d399c343935865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:40 +0000
Subject: [PATCH 22/60] fix: labels, types and property keys that are reserved
 words were changed to upper case

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index c393719..880a2b5 100644
--- a/ast.go
+++ b/ast.go
@@ -876,7 +876,7 @@ func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
-- 
2.43.0


From 1bd0fe7591e9d8fd56526ed978ae07d4b0727625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:28 +0000
Subject: [PATCH 23/60] fix: a lower case \u escape takes four digits even if
 more follow

---
 literal.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/literal.go b/literal.go
index 04589d0..62de342 100644
--- a/literal.go
+++ b/literal.go
@@ -140,19 +140,18 @@ func unescapeString(s string) string {
 		case 't', 'T':
 			bld.WriteByte('\t')
 		case 'u', 'U':
-			// 8 hex digits if there are that many, 4 otherwise
+			// \uXXXX, or \UXXXXXXXX
 			digits := s[i+1:]
-			n := 8
-			code, err := uint64(0), error(strconv.ErrSyntax)
-			if len(digits) >= n {
-				code, err = strconv.ParseUint(digits[:n], 16, 32)
-			}
-			if err != nil || code > unicode.MaxRune {
-				n = 4
-				if len(digits) >= n {
-					code, err = strconv.ParseUint(digits[:n], 16, 32)
+			n := 4
+			if s[i] == 'U' && len(digits) >= 8 {
+				if c, err := strconv.ParseUint(digits[:8], 16, 32); err == nil && c <= unicode.MaxRune {
+					n = 8
 				}
 			}
+			if len(digits) < n {
+				n = len(digits)
+			}
+			code, err := strconv.ParseUint(digits[:n], 16, 32)
 			if err != nil {
 				bld.WriteByte('\\')
 				bld.WriteByte(s[i])
-- 
2.43.0


From b5b06eb02c178ea73db2764adaaae79f7b23e586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:30 +0000
Subject: [PATCH 24/60] fix: Parse panicked for numbers that are out of range,
 and for CALL

---
 ast.go  | 12 ++++++------
 lang.go | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/ast.go b/ast.go
index 880a2b5..3c70dc5 100644
--- a/ast.go
+++ b/ast.go
@@ -1014,7 +1014,7 @@ func oC_Parameter(ctx *parser.OC_ParameterContext) Parameter {
 func decimalInteger(ctx antlr.TerminalNode) intLiteral {
 	i, err := strconv.Atoi(ctx.GetText())
 	if err != nil {
-		panic(err)
+		panic(ErrSyntax(err.Error()))
 	}
 	return intLiteral(i)
 }
@@ -1057,7 +1057,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(string(t[2:]), 16, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrSyntax(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1065,7 +1065,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(t, 8, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrSyntax(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1302,7 +1302,7 @@ func oC_NumberLiteral(ctx *parser.OC_NumberLiteralContext) Evaluatable {
 func oC_DoubleLiteral(ctx *parser.OC_DoubleLiteralContext) doubleLiteral {
 	v, err := strconv.ParseFloat(ctx.GetText(), 64)
 	if err != nil {
-		panic(err)
+		panic(ErrSyntax(err.Error()))
 	}
 	return doubleLiteral(v)
 }
@@ -1426,9 +1426,9 @@ func oC_Merge(ctx *parser.OC_MergeContext) UpdatingClause {
 }
 
 func oC_InQueryCall(ctx *parser.OC_InQueryCallContext) ReadingClause {
-	panic("Unsupported: inQueryCall")
+	panic(ErrSyntax("Unsupported: CALL"))
 }
 
 func oC_StandaloneCall(ctx *parser.OC_StandaloneCallContext) Evaluatable {
-	panic("Unsupported: standaloneCall")
+	panic(ErrSyntax("Unsupported: CALL"))
 }
diff --git a/lang.go b/lang.go
index e4a400b..ad89207 100644
--- a/lang.go
+++ b/lang.go
@@ -36,8 +36,21 @@ func GetParser(input string) *parser.CypherParser {
 	return p
 }
 
+// recoverParseError recovers the panic of a parse tree listener that
+// found a syntax error the grammar cannot express, and returns it in err
+func recoverParseError(err *error) {
+	if r := recover(); r != nil {
+		e, ok := r.(ErrSyntax)
+		if !ok {
+			panic(r)
+		}
+		*err = e
+	}
+}
+
 // GetEvaluatable returns an evaluatable object
-func Parse(input string) (Evaluatable, error) {
+func Parse(input string) (out Evaluatable, err error) {
+	defer recoverParseError(&err)
 	pr := GetParser(input)
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
@@ -45,7 +58,7 @@ func Parse(input string) (Evaluatable, error) {
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
 	}
-	out := oC_Cypher(c.(*parser.OC_CypherContext))
+	out = oC_Cypher(c.(*parser.OC_CypherContext))
 	return out, nil
 }
 
@@ -71,7 +84,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 //
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
-func ParsePatternExpr(expr string) (PatternPart, error) {
+func ParsePatternExpr(expr string) (out PatternPart, err error) {
+	defer recoverParseError(&err)
 	pr := GetParser(expr)
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
@@ -79,7 +93,7 @@ func ParsePatternExpr(expr string) (PatternPart, error) {
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-	out := oC_PatternPart(c.(*parser.OC_PatternPartContext))
+	out = oC_PatternPart(c.(*parser.OC_PatternPartContext))
 	return out, nil
 }
 
-- 
2.43.0


From 0f5d83851954edc03afefc62350426288019743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 25/60] fix: evaluating a construct that is not implemented
 panicked instead of returning an error

---
 eval.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index f386c57..4567f9d 100644
--- a/eval.go
+++ b/eval.go
@@ -58,6 +58,12 @@ func (expr Parameter) Evaluate(ctx *EvalContext) (Value, error) {
 	return ctx.GetParameter(string(expr))
 }
 
+// ErrUnimplemented is returned for the parts of the language that can
+// be parsed, but cannot be evaluated
+type ErrUnimplemented string
+
+func (e ErrUnimplemented) Error() string { return "Unimplemented: " + string(e) }
+
 type ErrInvalidAssignment string
 
 func (e ErrInvalidAssignment) Error() string { return "Invalid assignment to: " + string(e) }
@@ -594,12 +600,24 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	return val, nil
 }
 
-func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error)      { panic("Unimplemented") }
-func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error)     { panic("Unimplemented") }
-func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error)   { panic("Unimplemented") }
-func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error)           { panic("Unimplemented") }
-func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) { panic("Unimplemented") }
-func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error)            { panic("Unimplemented") }
+func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error) {
+	return ResultSet{}, ErrUnimplemented("UNWIND")
+}
+func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnimplemented("list comprehension")
+}
+func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnimplemented("pattern comprehension")
+}
+func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnimplemented(flt.op)
+}
+func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnimplemented("pattern expression")
+}
+func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnimplemented("count(*)")
+}
 func (mq multiPartQuery) Evaluate(ctx *EvalContext) (Value, error) {
-	panic("multipart query unimplemented")
+	return nil, ErrUnimplemented("WITH")
 }
-- 
2.43.0


From eb11a0919051eb33c5a5cb9d9e7f1d3c44a74e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:33 +0000
Subject: [PATCH 26/60] fix: list slices lost the last element or panicked, and
 those with one bound were list indexes

---
 ast.go  | 27 +++++++++++++++++---------
 eval.go | 60 ++++++++++++++++++++++++++-------------------------------
 2 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/ast.go b/ast.go
index 3c70dc5..307005d 100644
--- a/ast.go
+++ b/ast.go
@@ -785,17 +785,26 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
-		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+	rng := listRangeExpression{}
+	isRange := false
+	for i := 0; i < ctx.GetChildCount(); i++ {
+		switch child := ctx.GetChild(i).(type) {
+		case antlr.TerminalNode:
+			if child.GetText() == ".." {
+				isRange = true
+			}
+		case *parser.OC_ExpressionContext:
+			if isRange {
+				rng.second = oC_Expression(child)
+			} else {
+				rng.first = oC_Expression(child)
+			}
 		}
 	}
-	return stringListNullOperatorExpressionPart{
-		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
-		}}
+	if !isRange {
+		return stringListNullOperatorExpressionPart{listIndex: rng.first}
+	}
+	return stringListNullOperatorExpressionPart{listRange: &rng}
 }
 
 func oC_StringOperatorExpression(ctx *parser.OC_StringOperatorExpressionContext) stringListNullOperatorExpressionPart {
diff --git a/eval.go b/eval.go
index 4567f9d..574ee35 100644
--- a/eval.go
+++ b/eval.go
@@ -165,42 +165,36 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 				return nil, ErrNotAList
 			}
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if from.Get() == nil {
-			return RValue{}, nil
-		}
-		if !from.IsConst() {
-			constant = false
-		}
-		fromi, ok := from.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
+		// A bound that is not given is the start or the end of the list
+		fromi, toi := 0, len(listValue)
+		for _, bound := range []struct {
+			expr  Expression
+			value *int
+		}{{expr.listRange.first, &fromi}, {expr.listRange.second, &toi}} {
+			if bound.expr == nil {
+				continue
+			}
+			v, err := bound.expr.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if v.Get() == nil {
+				return RValue{}, nil
+			}
+			if !v.IsConst() {
+				constant = false
+			}
+			i, ok := v.Get().(int)
+			if !ok || i < 0 {
+				return nil, ErrInvalidListIndex
+			}
+			*bound.value = i
 		}
-		if to.Get() == nil {
+		if inputValue.Get() == nil {
 			return RValue{}, nil
 		}
-		if !to.IsConst() {
-			constant = false
-		}
-		toi, ok := to.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
-		if fromi < 0 || toi < 0 {
-			return nil, ErrInvalidListIndex
-		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
-		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
+		if toi > len(listValue) {
+			toi = len(listValue)
 		}
 		if fromi > toi {
 			fromi = toi
-- 
2.43.0


From 26362c5ca5e21172cef6991bcbe0d2b4849ece85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:35 +0000
Subject: [PATCH 27/60] fix: characters the lexer does not recognize, and
 whatever follows a pattern expression, were silently dropped

---
 lang.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lang.go b/lang.go
index ad89207..7d0c903 100644
--- a/lang.go
+++ b/lang.go
@@ -36,6 +36,14 @@ func GetParser(input string) *parser.CypherParser {
 	return p
 }
 
+// addErrorListener reports the errors of both the lexer and the parser to the listener
+func addErrorListener(pr *parser.CypherParser, listener antlr.ErrorListener) {
+	pr.AddErrorListener(listener)
+	if lexer, ok := pr.GetTokenStream().GetTokenSource().(antlr.Recognizer); ok {
+		lexer.AddErrorListener(listener)
+	}
+}
+
 // recoverParseError recovers the panic of a parse tree listener that
 // found a syntax error the grammar cannot express, and returns it in err
 func recoverParseError(err *error) {
@@ -53,7 +61,7 @@ func Parse(input string) (out Evaluatable, err error) {
 	defer recoverParseError(&err)
 	pr := GetParser(input)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	addErrorListener(pr, &errListener)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
@@ -88,8 +96,18 @@ func ParsePatternExpr(expr string) (out PatternPart, err error) {
 	defer recoverParseError(&err)
 	pr := GetParser(expr)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	addErrorListener(pr, &errListener)
 	c := pr.OC_PatternPart()
+	if errListener.err == nil {
+		// Only whitespace can follow the pattern
+		rest := pr.GetTokenStream()
+		for rest.LA(1) == parser.CypherParserSP {
+			rest.Consume()
+		}
+		if rest.LA(1) != antlr.TokenEOF && errListener.err == nil {
+			errListener.err = ErrSyntax("unexpected input after the pattern: " + expr)
+		}
+	}
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-- 
2.43.0


From f091f457d2e84a01bcb3fc17c2e12dc57f5aa946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 28/60] fix: reading a property that holds a list, a map, or an
 unsigned integer panicked

---
 eval.go  | 11 ++++++----
 value.go | 66 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/eval.go b/eval.go
index 574ee35..10c52b0 100644
--- a/eval.go
+++ b/eval.go
@@ -268,7 +268,7 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					ok = true
 				}
 			}
-			if edges, k := val.Value.([]*lpg.Edge); k {
+			if edges, k := val.Value.([]*lpg.Edge); k && len(edges) > 0 {
 				wp = edges[0]
 				ok = true
 			}
@@ -279,10 +279,13 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				return RValue{}, nil
 			}
 			if n, ok := prop.(withNativeValue); ok {
-				val = ValueOf(n.GetNativeValue()).(RValue)
-			} else {
-				val = ValueOf(prop).(RValue)
+				prop = n.GetNativeValue()
+			}
+			propValue, err := valueOf(prop)
+			if err != nil {
+				return nil, err
 			}
+			val = RValue{Value: propValue.Get()}
 		} else {
 			return nil, ErrValueDoesNotHaveProperties{Value: val.Value, Property: property.String()}
 		}
diff --git a/value.go b/value.go
index 176680e..3575203 100644
--- a/value.go
+++ b/value.go
@@ -2,6 +2,7 @@ package opencypher
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/cloudprivacylabs/lpg/v2"
@@ -89,7 +90,68 @@ func ValueAsBool(v Value) (bool, bool) {
 	return false, false
 }
 
+// ValueOf returns the value for a native value. It panics if there is
+// no value for the type of in.
 func ValueOf(in interface{}) Value {
+	v, err := valueOf(in)
+	if err != nil {
+		panic(err.Error())
+	}
+	return v
+}
+
+func valueOf(in interface{}) (Value, error) {
+	switch v := in.(type) {
+	case uint:
+		if uint64(v) <= math.MaxInt64 {
+			return RValue{Value: int(v)}, nil
+		}
+	case uint64:
+		if v <= math.MaxInt64 {
+			return RValue{Value: int(v)}, nil
+		}
+	case []string:
+		list := make([]Value, 0, len(v))
+		for _, x := range v {
+			list = append(list, RValue{Value: x})
+		}
+		return RValue{Value: list}, nil
+	case []int:
+		list := make([]Value, 0, len(v))
+		for _, x := range v {
+			list = append(list, RValue{Value: x})
+		}
+		return RValue{Value: list}, nil
+	case []interface{}:
+		list := make([]Value, 0, len(v))
+		for _, x := range v {
+			elem, err := valueOf(x)
+			if err != nil {
+				return nil, err
+			}
+			list = append(list, elem)
+		}
+		return RValue{Value: list}, nil
+	case map[string]interface{}:
+		m := make(map[string]Value)
+		for k, x := range v {
+			elem, err := valueOf(x)
+			if err != nil {
+				return nil, err
+			}
+			m[k] = elem
+		}
+		return RValue{Value: m}, nil
+	default:
+		if v := valueOfSimple(in); v != nil {
+			return v, nil
+		}
+	}
+	return nil, fmt.Errorf("Invalid value: %v %T", in, in)
+}
+
+// valueOfSimple returns nil if there is no value for in
+func valueOfSimple(in interface{}) Value {
 	if in == nil {
 		return RValue{}
 	}
@@ -130,6 +192,8 @@ func ValueOf(in interface{}) Value {
 		return RValue{Value: v}
 	case *lpg.Node:
 		return RValue{Value: v}
+	case *lpg.Edge:
+		return RValue{Value: v}
 	case []*lpg.Edge:
 		return RValue{Value: v}
 	case []Value:
@@ -143,7 +207,7 @@ func ValueOf(in interface{}) Value {
 	case *lpg.Path:
 		return RValue{Value: v}
 	}
-	panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	return nil
 }
 
 // IsValueSame compares two values and decides if the two are the same
-- 
2.43.0


From a5033d036b36c4105c7cecd3e0aac4b6aad4ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:27 +0000
Subject: [PATCH 29/60] fix: the values of a map could not be read by their
 keys

---
 eval.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eval.go b/eval.go
index 10c52b0..eca9922 100644
--- a/eval.go
+++ b/eval.go
@@ -260,6 +260,14 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if val.Value == nil {
 			return RValue{}, nil
 		}
+		if m, ok := val.Value.(map[string]Value); ok {
+			v := m[property.String()]
+			if v == nil {
+				return RValue{}, nil
+			}
+			val = RValue{Value: v.Get()}
+			continue
+		}
 		wp, ok := val.Value.(withProperty)
 		if !ok {
 			if path, ed := val.Value.(*lpg.Path); ed {
-- 
2.43.0


From 9801eae0da8d9488ad391676c21635d6cf649eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 30/60] fix: the labels of a node could not be tested with
 n:Label

---
 eval.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index eca9922..8b94b1e 100644
--- a/eval.go
+++ b/eval.go
@@ -239,7 +239,15 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 	val := RValue{Value: v.Get()}
-	if pl.nodeLabels != nil {
+	if node, ok := val.Value.(*lpg.Node); ok && pl.nodeLabels != nil {
+		hasAll := true
+		for _, label := range *pl.nodeLabels {
+			if !node.HasLabel(label.String()) {
+				hasAll = false
+			}
+		}
+		val.Value = hasAll
+	} else if pl.nodeLabels != nil && val.Value != nil {
 		gobj, ok := val.Value.(lpg.StringSet)
 		if !ok {
 			return nil, ErrNotAStringSet
-- 
2.43.0


From 6f6ec9082c9ece4ced7f602533781e6ebabe775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 31/60] fix: labels() returned a []string, which is not one of
 the value types, so it could not be used as a list

---
 functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index c903aca..e8b84ea 100644
--- a/functions.go
+++ b/functions.go
@@ -103,7 +103,7 @@ func labelsFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if !ok {
 		return nil, fmt.Errorf("Not a node")
 	}
-	return RValue{Value: node.GetLabels().Slice()}, nil
+	return ValueOf(node.GetLabels().Slice()), nil
 }
 
 func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From c7d51a52d8166c5bd9ddc970365128da5966ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:32 +0000
Subject: [PATCH 32/60] fix: right() returned the string without its first
 characters, left() and right() gave nothing when asked for more than there
 is, and all of the string functions cut characters in half

---
 functions.go   |  3 ++-
 stringfuncs.go | 31 +++++++++++++++++--------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/functions.go b/functions.go
index e8b84ea..0efbd68 100644
--- a/functions.go
+++ b/functions.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"fmt"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cloudprivacylabs/lpg/v2"
 )
@@ -131,7 +132,7 @@ func sizeFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: len(arr)}, nil
 	}
 	if str, ok := val.(string); ok {
-		return RValue{Value: len(str)}, nil
+		return RValue{Value: utf8.RuneCountInString(str)}, nil
 	}
 	return RValue{}, nil
 }
diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..e6ac0ad 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -125,10 +125,14 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
-	if i < 0 || i > len(s) {
+	chars := []rune(s)
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[i:]}, nil
+	if i > len(chars) {
+		i = len(chars)
+	}
+	return RValue{Value: string(chars[len(chars)-i:])}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -143,10 +147,14 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
-	if i < 0 || i > len(s) {
+	chars := []rune(s)
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[:i]}, nil
+	if i > len(chars) {
+		i = len(chars)
+	}
+	return RValue{Value: string(chars[:i])}, nil
 }
 
 func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -174,20 +182,15 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return RValue{}, nil
 		}
 	}
-	if start < 0 || start > len(s) {
+	chars := []rune(s)
+	if start < 0 || start > len(chars) {
 		return RValue{Value: ""}, nil
 	}
-	var end int
-	if max == -1 {
-		end = len(s)
-	} else {
+	end := len(chars)
+	if max != -1 && max < len(chars)-start {
 		end = start + max
 	}
-
-	if end > len(s) {
-		end = len(s)
-	}
-	return RValue{Value: s[start:end]}, nil
+	return RValue{Value: string(chars[start:end])}, nil
 }
 
 func printFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From fed932fa2f2621b5b872f30d5f17291de86f0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:34 +0000
Subject: [PATCH 33/60] fix: range() left out its end, and did not stop when
 the next value overflows

---
 functions.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/functions.go b/functions.go
index 0efbd68..eddde02 100644
--- a/functions.go
+++ b/functions.go
@@ -80,18 +80,15 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return nil, err
 		}
 	}
-	if (end <= start && skip > 0) || (end >= start && skip < 0) || skip == 0 {
-		return RValue{Value: []Value{}}, nil
-	}
 	arr := make([]Value, 0)
-	if end > start {
-		for at := start; at < end; at += skip {
-			arr = append(arr, RValue{Value: at})
-		}
-	} else {
-		for at := start; at > end; at += skip {
-			arr = append(arr, RValue{Value: at})
+	for at := start; (skip > 0 && at <= end) || (skip < 0 && at >= end); {
+		arr = append(arr, RValue{Value: at})
+		next := at + skip
+		if (skip > 0) != (next > at) {
+			// Overflow
+			break
 		}
+		at = next
 	}
 	return RValue{Value: arr}, nil
 }
-- 
2.43.0


From 82ecee64286a04c58d61102850877e1dd24cf449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:36 +0000
Subject: [PATCH 34/60] fix: toIntegerOrNull returned an error instead of null

---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From 5928fe3a067c30ffb7abf76ca697309293458466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:54 +0000
Subject: [PATCH 35/60] fix: SET updated the cartesian product of the matched
 values instead of the matched rows

---
 update.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..768335e 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
-	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 9fbe214a6e0e3b5b758f36da7d350c441acc96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 36/60] fix: CREATE and SET n={...} stored a property for a
 null value

---
 patterneval.go | 3 +++
 update.go      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..39205ab 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -317,6 +317,9 @@ func (p *Properties) getPropertiesMap(ctx *EvalContext) (map[string]interface{},
 		}
 		properties = make(map[string]interface{})
 		for k, v := range propertiesAsValue {
+			if v.Get() == nil {
+				continue
+			}
 			properties[k] = v.Get()
 		}
 	}
diff --git a/update.go b/update.go
index 768335e..9c8b16d 100644
--- a/update.go
+++ b/update.go
@@ -46,6 +46,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	}
 
 	value, err := s.variable.Evaluate(ctx)
+	if err != nil {
+		return err
+	}
 	lvalue, ok := value.(LValue)
 	if !ok {
 		return ErrNotAnLValue
@@ -85,6 +88,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
-- 
2.43.0


From e21269cdd5103070411aa47607e7a68f9052c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 37/60] fix: DELETE deleted the same node or relationship once
 for every row, corrupting the graph, and deleted some of them before failing
 for an attached node

---
 update.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/update.go b/update.go
index 9c8b16d..415e875 100644
--- a/update.go
+++ b/update.go
@@ -131,34 +131,54 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	subctx := ctx.SubContext()
+	// Find everything to delete first, so every node and edge is deleted
+	// once, and nothing is deleted if there is an error
+	nodes := make([]*lpg.Node, 0)
+	edges := make([]*lpg.Edge, 0)
+	seenNodes := make(map[*lpg.Node]struct{})
+	seenEdges := make(map[*lpg.Edge]struct{})
 	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
 		subctx.SetVars(row)
 		for _, expr := range d.exprs {
 			v, err := expr.Evaluate(subctx)
 			if err != nil {
 				return nil, err
 			}
-			if v.Get() == nil {
-				continue
-			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
+				if _, seen := seenNodes[item]; !seen {
+					seenNodes[item] = struct{}{}
+					nodes = append(nodes, item)
 				}
-				item.DetachAndRemove()
-
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					edge := item.GetEdge(i)
+					if _, seen := seenEdges[edge]; !seen {
+						seenEdges[edge] = struct{}{}
+						edges = append(edges, edge)
+					}
 				}
 			}
 		}
 	}
+	if !d.detach {
+		for _, node := range nodes {
+			for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge} {
+				for itr := node.GetEdges(dir); itr.Next(); {
+					if _, deleted := seenEdges[itr.Edge()]; !deleted {
+						return nil, fmt.Errorf("Cannot delete attached node")
+					}
+				}
+			}
+		}
+	}
+	for _, edge := range edges {
+		edge.Remove()
+	}
+	for _, node := range nodes {
+		node.DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From e73546ffe5d22fd54a9af19fc85cbcee7151705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:00 +0000
Subject: [PATCH 38/60] fix: CREATE after a MATCH used the nodes created for
 the first row in the other rows, and failed for a relationship variable

---
 update.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/update.go b/update.go
index 415e875..1e03f65 100644
--- a/update.go
+++ b/update.go
@@ -234,13 +234,27 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	// Each row gets its own nodes and edges
+	results := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		if _, err := c.TopLevelUpdate(subctx); err != nil {
 			return nil, err
 		}
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range subctx.GetVarsNearestScope() {
+			newRow[k] = v
+		}
+		results.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	if len(results.Rows) > 0 {
+		ctx.SetVars(results.Rows[len(results.Rows)-1])
+	}
+	return RValue{Value: results}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From 76bea54625de9b5b1b75d039e558b12f682f23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:02 +0000
Subject: [PATCH 39/60] fix: the rows of several MATCH clauses were appended
 instead of joined, and updating clauses that do not follow a MATCH ignored
 each other's results

---
 eval.go | 62 +++++++++++++++++++++------------------------------------
 1 file changed, 23 insertions(+), 39 deletions(-)

diff --git a/eval.go b/eval.go
index 8b94b1e..ecaa1ed 100644
--- a/eval.go
+++ b/eval.go
@@ -476,60 +476,44 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		return nil
 	}
+	// Every clause works on the rows of the previous one, starting with a single empty row
 	results := *NewResultSet()
-	if len(query.read) > 0 {
-		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
+	results.Append(map[string]Value{})
+	for _, r := range query.read {
+		joined := *NewResultSet()
+		for _, row := range results.Rows {
+			subctx := ctx.SubContext()
+			subctx.SetVars(row)
+			rs, err := r.GetResults(subctx)
 			if err != nil {
 				return nil, err
 			}
-			results.Add(rs)
-		}
-
-		for _, upd := range query.update {
-			v, err := upd.Update(ctx, results)
-			if err != nil {
-				return nil, err
+			for _, newRow := range rs.Rows {
+				for k, v := range row {
+					if _, exists := newRow[k]; !exists {
+						newRow[k] = v
+					}
+				}
+				joined.Append(newRow)
 			}
-			results = v.Get().(ResultSet)
 		}
-		if query.ret == nil {
-			return RValue{Value: *NewResultSet()}, nil
-		}
-		err := project(results.Rows)
-		if err != nil {
-			return nil, err
-		}
-		return RValue{Value: ret}, nil
+		results = joined
 	}
-
 	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+		v, err := upd.Update(ctx, results)
 		if err != nil {
 			return nil, err
 		}
-		if v != nil && v.Get() != nil {
-			results = v.Get().(ResultSet)
-		}
+		results = v.Get().(ResultSet)
+	}
+	if len(query.read) == 0 && len(results.Rows) > 0 {
+		ctx.SetVars(results.Rows[len(results.Rows)-1])
 	}
 	if query.ret == nil {
 		return RValue{Value: *NewResultSet()}, nil
 	}
-
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	if err := project(results.Rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
-- 
2.43.0


From 0441a4532fc5501481ce61e9647ad5548f275f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 40/60] fix: the properties of a pattern could not refer to the
 variables of an earlier pattern of the same MATCH

---
 patterneval.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 39205ab..441f44a 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -54,19 +54,10 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 }
 
 func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
-	patterns := make([]lpg.Pattern, 0, len(match.Pattern.Parts))
-	for i := range match.Pattern.Parts {
-		p, err := match.Pattern.Parts[i].getPattern(ctx)
-		if err != nil {
-			return *NewResultSet(), err
-		}
-		patterns = append(patterns, p)
-	}
-
-	var nextPattern func(*EvalContext, []lpg.Pattern, int) error
+	var nextPattern func(*EvalContext, []PatternPart, int) error
 
 	results := NewResultSet()
-	currentRow := make([]map[string]Value, len(patterns))
+	currentRow := make([]map[string]Value, len(match.Pattern.Parts))
 
 	addRow := func() {
 		newRow := make(map[string]Value)
@@ -78,9 +69,14 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		results.Rows = append(results.Rows, newRow)
 	}
 
-	nextPattern = func(prevContext *EvalContext, pat []lpg.Pattern, index int) error {
+	nextPattern = func(prevContext *EvalContext, pat []PatternPart, index int) error {
 		newContext := prevContext.SubContext()
-		symbols, err := BuildPatternSymbols(newContext, pat[0])
+		// The pattern can refer to the variables of the previous ones
+		pattern, err := pat[0].getPattern(newContext)
+		if err != nil {
+			return err
+		}
+		symbols, err := BuildPatternSymbols(newContext, pattern)
 		if err != nil {
 			return err
 		}
@@ -88,7 +84,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 			evalCtx: newContext,
 			result:  NewResultSet(),
 		}
-		err = pat[0].Run(newContext.graph, symbols, &results)
+		err = pattern.Run(newContext.graph, symbols, &results)
 		if err != nil {
 			return err
 		}
@@ -117,7 +113,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		}
 		return nil
 	}
-	if err := nextPattern(ctx, patterns, 0); err != nil {
+	if err := nextPattern(ctx, match.Pattern.Parts, 0); err != nil {
 		return ResultSet{}, err
 	}
 	return *results, nil
-- 
2.43.0


From 09c3ccab00dbede925f370c64d00da5c353884f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:54 +0000
Subject: [PATCH 41/60] fix: a relationship variable that is already bound
 matched every relationship

---
 patterneval.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 update.go      |  5 +----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 441f44a..32ea19c 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -38,6 +38,25 @@ type matchResultAccumulator struct {
 	evalCtx *EvalContext
 	result  *ResultSet
 	err     error
+	// The symbols of the pattern that are already bound. Matching
+	// restricts the nodes to these, but not the relationships
+	bound map[string]Value
+}
+
+// newMatchResultAccumulator returns an accumulator for the results of
+// running the pattern in the context
+func newMatchResultAccumulator(ctx *EvalContext, pattern lpg.Pattern) matchResultAccumulator {
+	ret := matchResultAccumulator{
+		evalCtx: ctx,
+		result:  NewResultSet(),
+		bound:   make(map[string]Value),
+	}
+	for symbol := range pattern.GetSymbolNames().M {
+		if v, err := ctx.GetVar(symbol); err == nil {
+			ret.bound[symbol] = RValue{Value: v.Get()}
+		}
+	}
+	return ret
 }
 
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
@@ -46,6 +65,13 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 	}
 	// Record results in the context
 	result := make(map[string]Value)
+	for k, v := range symbols {
+		if path, ok := v.(*lpg.Path); ok {
+			if bound, exists := acc.bound[k]; exists && !hasSameEdges(path, bound) {
+				return
+			}
+		}
+	}
 	for k, v := range symbols {
 		result[k] = RValue{Value: v}
 		acc.evalCtx.SetVar(k, RValue{Value: v})
@@ -53,6 +79,20 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 	acc.result.Append(result)
 }
 
+// hasSameEdges returns true if v is a path with the edges of path
+func hasSameEdges(path *lpg.Path, v Value) bool {
+	p, ok := v.Get().(*lpg.Path)
+	if !ok || p.NumEdges() != path.NumEdges() {
+		return false
+	}
+	for i := 0; i < p.NumEdges(); i++ {
+		if p.GetEdge(i) != path.GetEdge(i) {
+			return false
+		}
+	}
+	return true
+}
+
 func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	var nextPattern func(*EvalContext, []PatternPart, int) error
 
@@ -80,10 +120,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		if err != nil {
 			return err
 		}
-		results := matchResultAccumulator{
-			evalCtx: newContext,
-			result:  NewResultSet(),
-		}
+		results := newMatchResultAccumulator(newContext, pattern)
 		err = pattern.Run(newContext.graph, symbols, &results)
 		if err != nil {
 			return err
diff --git a/update.go b/update.go
index 1e03f65..8de2c84 100644
--- a/update.go
+++ b/update.go
@@ -394,10 +394,7 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 		unbound[symbol] = struct{}{}
 	}
 
-	results := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-	}
+	results := newMatchResultAccumulator(ctx, pattern)
 	symbols, err := BuildPatternSymbols(ctx, pattern)
 	if err != nil {
 		return nil, *NewResultSet(), err
-- 
2.43.0


From 2db59fa85edf391cc48e74b56d344ba36f1bc0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:56 +0000
Subject: [PATCH 42/60] fix: OPTIONAL MATCH dropped the rows that have no match

---
 patterneval.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 32ea19c..5fd1594 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -153,9 +153,37 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	if err := nextPattern(ctx, match.Pattern.Parts, 0); err != nil {
 		return ResultSet{}, err
 	}
+	if match.Optional && len(results.Rows) == 0 {
+		// No match: a single row where the new variables are null
+		row := make(map[string]Value)
+		for _, part := range match.Pattern.Parts {
+			for _, symbol := range part.symbols() {
+				if _, err := ctx.GetVar(symbol); err != nil {
+					row[symbol] = RValue{}
+				}
+			}
+		}
+		results.Append(row)
+	}
 	return *results, nil
 }
 
+// symbols returns the names of the variables of the pattern
+func (part PatternPart) symbols() []string {
+	ret := make([]string, 0)
+	add := func(v *variable) {
+		if v != nil {
+			ret = append(ret, string(*v))
+		}
+	}
+	add(part.start.variable)
+	for _, element := range part.path {
+		add(element.rel.variable)
+		add(element.node.variable)
+	}
+	return ret
+}
+
 // BuildPatternSymbols copies all the symbols referenced in the
 // pattern from the context, and puts them in a map.
 func BuildPatternSymbols(ctx *EvalContext, pattern lpg.Pattern) (map[string]*lpg.PatternSymbol, error) {
-- 
2.43.0


From 1ea6d452aa335b5352754f00386ae9b4d23f9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:58 +0000
Subject: [PATCH 43/60] fix: a relationship with two arrows matched right to
 left only, instead of either direction

---
 patterneval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 5fd1594..14a3898 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -282,7 +282,7 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
-- 
2.43.0


From 01a63d4ea35ab639702431c7da796e5f0fef56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:00 +0000
Subject: [PATCH 44/60] fix: SET and REMOVE failed for a variable OPTIONAL
 MATCH left null

---
 eval.go   | 6 ++++++
 update.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/eval.go b/eval.go
index ecaa1ed..e2d8752 100644
--- a/eval.go
+++ b/eval.go
@@ -590,6 +590,12 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					}
 				},
 			}
+		case nil:
+			// A property of null is null, and setting it has no effect
+			val = LValue{
+				getter: func() interface{} { return nil },
+				setter: func(interface{}) {},
+			}
 		default:
 			return nil, ErrInvalidIndirection(prop)
 		}
diff --git a/update.go b/update.go
index 8de2c84..1353ea3 100644
--- a/update.go
+++ b/update.go
@@ -53,6 +53,10 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	if !ok {
 		return ErrNotAnLValue
 	}
+	if lvalue.Get() == nil {
+		// Nothing to update
+		return nil
+	}
 
 	getSourceProps := func() (map[string]interface{}, error) {
 		sourceProps := make(map[string]interface{})
-- 
2.43.0


From d7695152ea299ed584012174c9bc06ae26e67914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 45/60] fix: RETURN *, expr left out the expressions

---
 eval.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eval.go b/eval.go
index e2d8752..f061221 100644
--- a/eval.go
+++ b/eval.go
@@ -524,7 +524,6 @@ func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (m
 		for k, v := range values {
 			ret[k] = v
 		}
-		return ret, nil
 	}
 
 	for k, v := range values {
-- 
2.43.0


From ea814381210cbaac54d8a5a65576d49bead5bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:04 +0000
Subject: [PATCH 46/60] fix: RETURN ignored DISTINCT and ORDER BY

---
 ast.go  |  2 +-
 eval.go | 93 +++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 91 insertions(+), 4 deletions(-)

diff --git a/ast.go b/ast.go
index 307005d..e762f99 100644
--- a/ast.go
+++ b/ast.go
@@ -579,7 +579,7 @@ func oC_Order(ctx *parser.OC_OrderContext) order {
 func oC_SortItem(ctx *parser.OC_SortItemContext) sortItem {
 	ret := sortItem{
 		expr: oC_Expression(ctx.OC_Expression().(*parser.OC_ExpressionContext)),
-		asc:  ctx.ASCENDING() != nil || ctx.ASC() != nil,
+		asc:  ctx.DESCENDING() == nil && ctx.DESC() == nil,
 	}
 	return ret
 }
diff --git a/eval.go b/eval.go
index f061221..2f29150 100644
--- a/eval.go
+++ b/eval.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -461,19 +462,50 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 
 	project := func(rows []map[string]Value) error {
+		projection := query.ret.projection
+		// Without DISTINCT and ORDER BY, the rows to skip do not have to be projected
+		streaming := !projection.distinct && projection.order == nil
+		sortKeys := make([][]Value, 0)
 		for index, item := range rows {
-			if skip != -1 && index < skip {
+			if streaming && skip != -1 && index < skip {
 				continue
 			}
-			if limit != -1 && len(ret.Rows) >= limit {
+			if streaming && limit != -1 && len(ret.Rows) >= limit {
 				break
 			}
-			val, err := query.ret.projection.items.Project(ctx, item)
+			val, err := projection.items.Project(ctx, item)
 			if err != nil {
 				return err
 			}
+			if projection.distinct && ret.find(val) != -1 {
+				continue
+			}
+			if projection.order != nil {
+				keys, err := projection.order.getKeys(ctx, val)
+				if err != nil {
+					return err
+				}
+				sortKeys = append(sortKeys, keys)
+			}
 			ret.Rows = append(ret.Rows, val)
 		}
+		if streaming {
+			return nil
+		}
+		if projection.order != nil {
+			if err := projection.order.sort(ret.Rows, sortKeys); err != nil {
+				return err
+			}
+		}
+		if skip > 0 {
+			if skip > len(ret.Rows) {
+				skip = len(ret.Rows)
+			}
+			ret.Rows = ret.Rows[skip:]
+		}
+		if limit != -1 && limit < len(ret.Rows) {
+			ret.Rows = ret.Rows[:limit]
+		}
 		return nil
 	}
 	// Every clause works on the rows of the previous one, starting with a single empty row
@@ -518,6 +550,61 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	return RValue{Value: ret}, nil
 }
 
+// getKeys evaluates the sort items for a row. The sort items can refer
+// to the variables in the context, and to the projected names
+func (o order) getKeys(ctx *EvalContext, row map[string]Value) ([]Value, error) {
+	subctx := ctx.SubContext()
+	subctx.SetVars(row)
+	keys := make([]Value, 0, len(o.items))
+	for _, item := range o.items {
+		v, err := item.expr.Evaluate(subctx)
+		if err != nil {
+			return nil, err
+		}
+		keys = append(keys, RValue{Value: v.Get()})
+	}
+	return keys, nil
+}
+
+// sort the rows by their keys. Null comes last in ascending order
+func (o order) sort(rows []map[string]Value, keys [][]Value) error {
+	indexes := make([]int, len(rows))
+	for i := range rows {
+		indexes[i] = i
+	}
+	var err error
+	sort.SliceStable(indexes, func(i, j int) bool {
+		for k, item := range o.items {
+			v1 := keys[indexes[i]][k].Get()
+			v2 := keys[indexes[j]][k].Get()
+			cmp, e := comparePrimitiveValues(v1, v2)
+			if e != nil {
+				err = e
+				return false
+			}
+			if (v1 == nil) != (v2 == nil) {
+				cmp = -cmp
+			}
+			if !item.asc {
+				cmp = -cmp
+			}
+			if cmp != 0 {
+				return cmp < 0
+			}
+		}
+		return false
+	})
+	if err != nil {
+		return err
+	}
+	sorted := make([]map[string]Value, 0, len(rows))
+	for _, i := range indexes {
+		sorted = append(sorted, rows[i])
+	}
+	copy(rows, sorted)
+	return nil
+}
+
 func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (map[string]Value, error) {
 	ret := make(map[string]Value)
 	if prj.all {
-- 
2.43.0


From 50e4fa5b5e4615a81dfd1e8144a03773929c8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 47/60] fix: the cartesian product of no result sets, or of
 rows without columns, never ended

---
 resultset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index 46ac4dd..4ad8b4c 100644
--- a/resultset.go
+++ b/resultset.go
@@ -188,7 +188,7 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 		if !f(data) {
 			return false
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(r.Rows) {
@@ -228,7 +228,7 @@ func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]V
 		if filter(data) {
 			result.Rows = append(result.Rows, data)
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(resultsets[i].Rows) {
-- 
2.43.0


From f488d9a3bb3db043116ba2ba3de3443f805f5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 48/60] fix: an expression on constant elements of a list given
 as a parameter kept its first result when evaluated again

---
 eval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval.go b/eval.go
index 2f29150..bb6aabc 100644
--- a/eval.go
+++ b/eval.go
@@ -116,13 +116,13 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			if intValue >= len(listValue) {
 				return RValue{}, nil
 			}
-			return listValue[intValue], nil
+			return RValue{Value: listValue[intValue].Get()}, nil
 		}
 		index := len(listValue) + intValue
 		if index < 0 {
 			return RValue{}, nil
 		}
-		return listValue[index], nil
+		return RValue{Value: listValue[index].Get()}, nil
 
 	case expr.listIn != nil:
 		listValue, err := expr.listIn.Evaluate(ctx)
-- 
2.43.0


From aae96eafae4700ad83aaf4941abe33ec62bbc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:26 +0000
Subject: [PATCH 49/60] fix: MATCH panicked when there are fewer relationships
 than nodes and the relationship is undirected, or points to the left in a
 longer pattern

---
 patterneval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 14a3898..ec1bb18 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -282,6 +282,12 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
+	if ret.Max == 1 && ret.Min <= 1 {
+		// -1 is the same as 1 here, but it keeps the pattern plan from
+		// starting at this edge: such plans ignore the direction of the
+		// edge, and panic if it has none, or points to the left
+		ret.Min = -1
+	}
 	if rp.toRight == rp.toLeft {
 		ret.Undirected = true
 	} else if rp.toLeft {
-- 
2.43.0


From f418f69cb03d408a1f25ccb791930c87fa90c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:06 +0000
Subject: [PATCH 50/60] fix: a parameter is not a constant, even if its value
 comes from one

---
 eval.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index bb6aabc..af89fbc 100644
--- a/eval.go
+++ b/eval.go
@@ -56,7 +56,16 @@ type ErrInvalidIndirection string
 func (e ErrInvalidIndirection) Error() string { return "Invalid indirection: " + string(e) }
 
 func (expr Parameter) Evaluate(ctx *EvalContext) (Value, error) {
-	return ctx.GetParameter(string(expr))
+	value, err := ctx.GetParameter(string(expr))
+	if err != nil {
+		return nil, err
+	}
+	// The value of a parameter may be different the next time
+	if rv, ok := value.(RValue); ok {
+		rv.Const = false
+		return rv, nil
+	}
+	return value, nil
 }
 
 // ErrUnimplemented is returned for the parts of the language that can
-- 
2.43.0


From 5c701fb2a9fc9dfb00cdacba00dc2b452f2898c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:09 +0000
Subject: [PATCH 51/60] fix: string operators with a null operand are null, not
 an error

---
 eval.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index af89fbc..d4396d7 100644
--- a/eval.go
+++ b/eval.go
@@ -222,14 +222,17 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 }
 
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
-	inputStrValue, ok := inputValue.Get().(string)
-	if !ok {
-		return nil, ErrInvalidStringOperation
-	}
 	exprValue, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if inputValue.Get() == nil || exprValue.Get() == nil {
+		return RValue{}, nil
+	}
+	inputStrValue, ok := inputValue.Get().(string)
+	if !ok {
+		return nil, ErrInvalidStringOperation
+	}
 	strValue, ok := exprValue.Get().(string)
 	if !ok {
 		return nil, ErrInvalidStringOperation
-- 
2.43.0


From 0004c088cae82f91ab7818585ed9e34e21113849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:12 +0000
Subject: [PATCH 52/60] fix: a null in CASE does not match, and is not an error

---
 eval.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval.go b/eval.go
index d4396d7..39b4698 100644
--- a/eval.go
+++ b/eval.go
@@ -383,6 +383,10 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		if when.Get() == nil || (cs.test != nil && testValue.Get() == nil) {
+			// Unknown, so not a match
+			continue
+		}
 		if cs.test != nil {
 			result, err := comparePrimitiveValues(testValue.Get(), when.Get())
 			if err != nil {
-- 
2.43.0


From a6e894a5a0aea6f552a35d94f977f8311d0d473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:27 +0000
Subject: [PATCH 53/60] fix: SKIP and LIMIT were always 0, because ValueAsInt
 and ValueAsString dropped the value when given a nil error

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 3575203..fdeb581 100644
--- a/value.go
+++ b/value.go
@@ -346,7 +346,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -359,7 +359,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From 019b759c02d7133de6b3093c8f47e5cef9f87bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 54/60] fix: a variable repeated in a path pattern matched
 different nodes after the first match

---
 patterneval.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index ec1bb18..eb042d2 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -1,6 +1,9 @@
 package opencypher
 
 import (
+	"fmt"
+	"strings"
+
 	"github.com/cloudprivacylabs/lpg/v2"
 )
 
@@ -66,6 +69,9 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 	// Record results in the context
 	result := make(map[string]Value)
 	for k, v := range symbols {
+		if name, repeated := repeatedSymbol(k); repeated && symbols[name] != v {
+			return
+		}
 		if path, ok := v.(*lpg.Path); ok {
 			if bound, exists := acc.bound[k]; exists && !hasSameEdges(path, bound) {
 				return
@@ -73,12 +79,44 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 		}
 	}
 	for k, v := range symbols {
+		if _, repeated := repeatedSymbol(k); repeated {
+			continue
+		}
 		result[k] = RValue{Value: v}
 		acc.evalCtx.SetVar(k, RValue{Value: v})
 	}
 	acc.result.Append(result)
 }
 
+// nameRepeatedNodes gives a name of their own to the nodes of the
+// pattern that repeat the variable of an earlier one, because matching
+// forgets the earlier node after the first match. The results are
+// checked for them to be the same node
+func nameRepeatedNodes(pattern lpg.Pattern) {
+	seen := make(map[string]struct{})
+	for i := 0; i < len(pattern); i += 2 {
+		name := pattern[i].Name
+		if len(name) == 0 {
+			continue
+		}
+		if _, exists := seen[name]; exists {
+			pattern[i].Name = fmt.Sprintf("%s%s%d", name, repeatedSymbolSeparator, i)
+		}
+		seen[name] = struct{}{}
+	}
+}
+
+const repeatedSymbolSeparator = "\x00"
+
+// repeatedSymbol returns the variable the symbol repeats, if it was
+// named by nameRepeatedNodes
+func repeatedSymbol(symbol string) (string, bool) {
+	if i := strings.Index(symbol, repeatedSymbolSeparator); i != -1 {
+		return symbol[:i], true
+	}
+	return "", false
+}
+
 // hasSameEdges returns true if v is a path with the edges of path
 func hasSameEdges(path *lpg.Path, v Value) bool {
 	p, ok := v.Get().(*lpg.Path)
@@ -235,6 +273,7 @@ func (part PatternPart) getPattern(ctx *EvalContext) (lpg.Pattern, error) {
 		}
 		pattern = append(pattern, pi)
 	}
+	nameRepeatedNodes(pattern)
 	return pattern, nil
 }
 
-- 
2.43.0


From e4c9cd52ebfdafbd07788cd871c5d6e984f7568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 55/60] fix: a pattern with a variable whose name contains a
 NUL matched nothing

---
 patterneval.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index eb042d2..9a5fd9c 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -106,7 +106,9 @@ func nameRepeatedNodes(pattern lpg.Pattern) {
 	}
 }
 
-const repeatedSymbolSeparator = "\x00"
+// repeatedSymbolSeparator is not valid UTF-8, so it is not in any name
+// read from a query
+const repeatedSymbolSeparator = "\xff"
 
 // repeatedSymbol returns the variable the symbol repeats, if it was
 // named by nameRepeatedNodes
-- 
2.43.0


From aa3982f35b1d1ba7585b0a89587e53e1583ea831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 56/60] fix: unary signs that cancel out, or are +, accept
 operands that are not numbers

---
 arithmeticeval.go | 13 ++++++++-----
 ast.go            |  9 +++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 7272683..0bb2c62 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -14,16 +14,19 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 	if err != nil {
 		return nil, err
 	}
-	// If the value is  an lvalue, preserve lvalue status
-	if !expr.neg {
-		return value, nil
-	}
-	// From now on, it is an rvalue
 	ret := RValue{Const: value.IsConst()}
 	val := value.Get()
 	if val == nil {
 		return ret, nil
 	}
+	if !expr.neg {
+		switch val.(type) {
+		case int, float64:
+			ret.Value = val
+			return ret, nil
+		}
+		return ret, ErrInvalidUnaryOperation
+	}
 	if intValue, ok := val.(int); ok {
 		ret.Value = -intValue
 	} else if floatValue, ok := val.(float64); ok {
diff --git a/ast.go b/ast.go
index e762f99..37e58f1 100644
--- a/ast.go
+++ b/ast.go
@@ -746,17 +746,22 @@ func oC_PowerOfExpression(ctx *parser.OC_PowerOfExpressionContext) Evaluatable {
 
 func oC_UnaryAddOrSubtractExpression(ctx *parser.OC_UnaryAddOrSubtractExpressionContext) Evaluatable {
 	ret := unaryAddOrSubtractExpression{}
+	signed := false
 	for child := 0; child < ctx.GetChildCount(); child++ {
 		ch := ctx.GetChild(child)
 		if tok, ok := ch.(antlr.TerminalNode); ok {
-			if tok.GetText() == "-" {
+			switch tok.GetText() {
+			case "-":
 				ret.neg = !ret.neg
+				signed = true
+			case "+":
+				signed = true
 			}
 		} else if expr, ok := ch.(*parser.OC_StringListNullOperatorExpressionContext); ok {
 			ret.expr = oC_StringListNullOperatorExpression(expr)
 		}
 	}
-	if !ret.neg {
+	if !signed {
 		return ret.expr
 	}
 	return &ret
-- 
2.43.0


From aa456aad50b7fd9c2a3a96e24b705b9d8cf647b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:50 +0000
Subject: [PATCH 57/60] fix: NOT NOT accepts an operand that is not a boolean

---
 ast.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 37e58f1..78cfcdf 100644
--- a/ast.go
+++ b/ast.go
@@ -645,12 +645,11 @@ func oC_AndExpression(ctx *parser.OC_AndExpressionContext) Expression {
 }
 
 func oC_NotExpression(ctx *parser.OC_NotExpressionContext) Expression {
-	if len(ctx.AllNOT())%2 == 1 {
-		return notExpression{
-			part: oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext)),
-		}
+	ret := oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
+	for range ctx.AllNOT() {
+		ret = notExpression{part: ret}
 	}
-	return oC_ComparisonExpression(ctx.OC_ComparisonExpression().(*parser.OC_ComparisonExpressionContext))
+	return ret
 }
 
 func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Expression {
-- 
2.43.0


From 136f1dfcc4bd602bf3a7e4eff73acbf2c9e30a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 58/60] fix: date({year:...}) gave the day before in time zones
 that skip midnight on that date

---
 datefuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datefuncs.go b/datefuncs.go
index 971e7f0..e2305e0 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -82,7 +82,7 @@ func dateFunc(ctx *EvalContext, args []Value) (Value, error) {
 					month = time.Month(m)
 				}
 
-				t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+				t := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
 				return RValue{Value: NewDate(t)}, nil
 			}
 		}
-- 
2.43.0


From 89d7f5d4320ee2a8238ab5bf8138f5c6285001d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 59/60] fix: parseDate called by several goroutines filled
 goment's global tables concurrently

---
 datefuncs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datefuncs.go b/datefuncs.go
index e2305e0..8598498 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -8,6 +8,10 @@ import (
 )
 
 func init() {
+	// goment fills its global tables when it is first used, which must not
+	// happen in several goroutines at once
+	goment.New()
+
 	globalFuncs["date"] = Function{
 		Name:      "date",
 		MinArgs:   0,
-- 
2.43.0


From 0990bc1724389e4ec4306e1d0368eed1eeb43eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:25 +0000
Subject: [PATCH 60/60] fix: the text of a duration was malformed if the
 nanoseconds are negative or more than a second

---
 duration.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/duration.go b/duration.go
index 4b5a29e..8e5f979 100644
--- a/duration.go
+++ b/duration.go
@@ -14,11 +14,21 @@ type Duration struct {
 }
 
 func (d Duration) String() string {
-	sign := ""
+	// Carry whole seconds, so that Nanos is between -1 and 1 seconds, and
+	// has the sign of Seconds
+	d.Seconds += int64(d.Nanos) / int64(time.Second)
+	d.Nanos %= int(time.Second)
 	if d.Seconds < 0 && d.Nanos > 0 {
 		d.Seconds++
-		d.Nanos = int(time.Second) - d.Nanos
+		d.Nanos -= int(time.Second)
+	} else if d.Seconds > 0 && d.Nanos < 0 {
+		d.Seconds--
+		d.Nanos += int(time.Second)
+	}
 
+	sign := ""
+	if d.Nanos < 0 {
+		d.Nanos = -d.Nanos
 		if d.Seconds == 0 {
 			sign = "-"
 		}
-- 
2.43.0

