From 11f93eb3006f17f2dff5ff0d1ad305a75ed5be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 01/29] fix: Monomial.DerivativeWrt must not decrement the
 receiver's exponents

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..144a90c 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From d7da4b1344b812b203a89c91c3161bce76938fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 02/29] fix: Monomial.Multiply must not append into its
 receiver's spare capacity

---
 symbolic/monomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 144a90c..2a1f453 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,7 +198,8 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
+		variables := append([]Variable{}, m.VariableFactors...)
+		variables = append(variables, right.VariableFactors...)
 		variables = UniqueVars(variables)
 
 		multiDegree := make([]int, len(variables))
-- 
2.43.0


From c17ff2373ffdaf3671121c3a0540b1cb2de47d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 03/29] fix: vector and matrix polynomial derivatives must not
 overwrite the receiver or fail on constant entries

---
 symbolic/polynomial.go        | 13 +++++++++++++
 symbolic/polynomial_matrix.go |  2 +-
 symbolic/polynomial_vector.go | 15 ++++++++++++---
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..7c302f4 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -601,6 +601,19 @@ func (p Polynomial) DerivativeWrt(vIn Variable) Expression {
 	return derivative
 }
 
+// derivativeAsPolynomial The derivative of the polynomial with respect to the input variable,
+// expressed as a polynomial even when it is a constant.
+func (p Polynomial) derivativeAsPolynomial(vIn Variable) Polynomial {
+	switch derivative := p.DerivativeWrt(vIn).(type) {
+	case Polynomial:
+		return derivative
+	case K:
+		return derivative.ToPolynomial()
+	default:
+		panic(fmt.Errorf("Unexpected type in Polynomial.derivativeAsPolynomial: %T", derivative))
+	}
+}
+
 // Degree The degree of the polynomial is the maximum degree of any of the monomials.
 func (p Polynomial) Degree() int {
 	// Input Processing
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..99e122b 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -436,7 +436,7 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	for _, row := range pm {
 		var dpmRow []Polynomial
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			dpmRow = append(dpmRow, polynomial.derivativeAsPolynomial(vIn))
 		}
 		dpm = append(dpm, dpmRow)
 	}
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..7cb5412 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -381,12 +381,21 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
-	// Constants
-	var derivative PolynomialVector = pv
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
 
 	// Algorithm
+	derivative := make(PolynomialVector, len(pv))
 	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+		derivative[ii] = polynomial.derivativeAsPolynomial(vIn)
 	}
 
 	return derivative
-- 
2.43.0


From c71fd642a25fd4886774d5ac0c5df81f64981670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:04 +0000
Subject: [PATCH 04/29] fix: Monomial.Variables must return a duplicate-free
 list that does not share the monomial's storage

---
 symbolic/monomial.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 2a1f453..88e0fed 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -38,9 +38,8 @@ func (m Monomial) Check() error {
 }
 
 // Variables returns the unique variables in the monomial.
-// TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	return m.VariableFactors
+	return UniqueVars(m.VariableFactors)
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
-- 
2.43.0


From 7b210aa97f49e27f3f35af48aa41ec6e8cb1a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:09 +0000
Subject: [PATCH 05/29] fix: Polynomial.Copy must be a deep copy, as documented

---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 7c302f4..09dd6e4 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From c07ec8094cd804b9b73e0d90cd06a9f1c671033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:49 +0000
Subject: [PATCH 06/29] fix: AsSimplifiedConstraint of a scalar constraint must
 also move the left constant, so that implication and non-negativity checks
 compare true bounds

---
 symbolic/scalar_constraint.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..688c342 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -243,7 +243,20 @@ func (sc ScalarConstraint) String() string {
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (sc ScalarConstraint) AsSimplifiedConstraint() Constraint {
-	return sc.Simplify()
+	// Move all variables to the left hand side
+	simplified := sc.Simplify()
+
+	// Move the constant that remains on the left hand side (if any) to the right
+	lhsConstant := simplified.LeftHandSide.Constant()
+	if lhsConstant != 0 {
+		simplified = ScalarConstraint{
+			LeftHandSide:  simplified.LeftHandSide.Minus(lhsConstant).(ScalarExpression),
+			RightHandSide: K(simplified.RightHandSide.Constant() - lhsConstant),
+			Sense:         simplified.Sense,
+		}
+	}
+
+	return simplified
 }
 
 // Variables returns all variables appearing in the scalar constraint.
@@ -299,11 +312,11 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 	}
 
 	// Simplify both constraints
-	sc = sc.Simplify()
+	sc = sc.AsSimplifiedConstraint().(ScalarConstraint)
 
 	switch otherC := other.(type) {
 	case ScalarConstraint:
-		otherC = otherC.Simplify()
+		otherC = otherC.AsSimplifiedConstraint().(ScalarConstraint)
 
 		// Naive implication check:
 		// 1. Both constraints contain only 1 variable AND it is the same variable. Then, simply check the bounds.
-- 
2.43.0


From 0b5885a0d52a068129e1894eb3900360e075ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 07/29] fix: bounds of nonlinear constraints must not be used
 to conclude implication

---
 symbolic/scalar_constraint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 688c342..ec4127f 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -323,7 +323,10 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 		containsOneVar := len(sc.Variables()) == 1 && len(otherC.Variables()) == 1
 		scAndOtherShareSameVar := len(UnionOfVariables(sc.Variables(), otherC.Variables())) == 1
 
-		if containsOneVar && scAndOtherShareSameVar {
+		// The bounds describe the constraints completely only if both are linear.
+		bothAreLinear := sc.IsLinear() && otherC.IsLinear()
+
+		if containsOneVar && scAndOtherShareSameVar && bothAreLinear {
 			// Get the coefficient of the single variable
 			scCoeffVector := sc.LeftHandSide.LinearCoeff(sc.Variables())
 			scCoeff := scCoeffVector.AtVec(0)
-- 
2.43.0


From 21a9d42bb08f37b07c6fde503ccb9c63bb33fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 08/29] fix: Monomial.LinearCoeff must place the coefficient at
 the variable of degree one, and be zero when that variable is not asked for

---
 symbolic/monomial.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 88e0fed..050db8d 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -355,11 +355,15 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	linearCoeffs := ZerosVector(len(wrtVars))
 
 	// Iterate through each variable
-	if IsLinear(m) {
-		// If the monomial is linear,
+	if m.Degree() == 1 {
+		// If the monomial has degree one,
 		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+		for ii, wrtVar := range wrtVars {
+			idx, _ := FindInSlice(wrtVar, m.VariableFactors)
+			if idx != -1 && m.Exponents[idx] == 1 {
+				linearCoeffs.SetVec(ii, m.Coefficient)
+			}
+		}
 	}
 
 	// Return
-- 
2.43.0


From c030a0df2fc56b157e419e12931b146a1eb5fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:35 +0000
Subject: [PATCH 09/29] fix: an equality constraint has no linear inequality
 representation

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index ec4127f..24a9839 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From 71154e7b6f366a7c8fc6d873437c4dfe24f82e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 10/29] fix: Monomial.MatchesFormOf must compare the exponents
 of the same variable

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 050db8d..7116a2e 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -469,7 +469,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From c9a8d31ddf6ef846a4fac8299b21436706d46aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:45 +0000
Subject: [PATCH 11/29] fix: Polynomial.Constant adds up every constant
 monomial

---
 symbolic/polynomial.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 09dd6e4..3b1870b 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -460,12 +460,14 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	// (A polynomial that has not been simplified may list several constants.)
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		if monomial.IsConstant() {
+			constant += monomial.Coefficient
+		}
 	}
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
-- 
2.43.0


From 0b97690a5041a89077847f983184d22afd432c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:45 +0000
Subject: [PATCH 12/29] fix: Polynomial.AsSimplifiedExpression keeps
 degree-zero monomials that list variables

---
 symbolic/polynomial.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 3b1870b..61e9131 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -542,8 +542,13 @@ func (p Polynomial) AsSimplifiedExpression() Expression {
 	// Create switch based on degree of the polynomial
 	switch pReduced.Degree() {
 	case 0:
-		// If the polynomial is a constant, then return the constant
-		return K(pReduced.Constant())
+		// If the polynomial is a constant, then return the constant.
+		// (A monomial of degree zero may still list variables with exponent zero.)
+		constant := 0.0
+		for _, monomial := range pReduced.Monomials {
+			constant += monomial.Coefficient
+		}
+		return K(constant)
 	case 1:
 		// If the polynomial is linear, then check to see if it is just a variable
 		if len(pReduced.Monomials) == 1 && pReduced.Monomials[0].IsVariable(pReduced.Variables()[0]) {
-- 
2.43.0


From 4b98caab8f7a6fa4306554fcd954ed30850ccfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:36 +0000
Subject: [PATCH 13/29] fix: a sum with a (1x1) vector treats that vector as a
 scalar instead of dropping entries of the other

---
 symbolic/vector_expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..85fa9a8 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -399,6 +399,13 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
+		// A (1x1) vector acts as a scalar
+		if ve.Len() == 1 && rightExpr.Len() != 1 {
+			return VectorPlusTemplate(rightExpr, veAsSlice[0])
+		}
+		if rightExpr.Len() == 1 && ve.Len() != 1 {
+			return VectorPlusTemplate(ve, rightExpr.AtVec(0))
+		}
 		for ii, se := range veAsSlice {
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
-- 
2.43.0


From 7655cf8623a9b6035a7fda12202c026cb01904ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 14/29] fix: a product with a (1x1) vector treats that vector
 as a scalar instead of dropping entries of the other

---
 symbolic/constant_vector.go   | 16 ++++++++++++----
 symbolic/polynomial_vector.go |  8 ++++++--
 symbolic/variable_vector.go   |  8 ++++++--
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..09ec728 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -342,13 +342,21 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 
 	case KVector:
 		// If the input is a KVector and the dimensions match
-		// then right is a (1x1) vector and can use the scalar method.
-		out = kv.Multiply(right[0])
+		// then one of the two is a (1x1) vector and can use the scalar method.
+		if len(right) != 1 {
+			out = VectorMultiplyTemplate(right, kv[0])
+		} else {
+			out = kv.Multiply(right[0])
+		}
 
 	case VariableVector:
 		// If the input is a KVector and the dimensions match
-		// then right is a (1x1) vector and can use the scalar method.
-		out = kv.Multiply(right[0])
+		// then one of the two is a (1x1) vector and can use the scalar method.
+		if len(right) != 1 {
+			out = VectorMultiplyTemplate(right, kv[0])
+		} else {
+			out = kv.Multiply(right[0])
+		}
 
 	default:
 		// Panic if the input type is not recognized
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 7cb5412..824162c 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -246,9 +246,13 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case PolynomialVector:
-		// This should only be true if the polynomial vector is actually a polynomial.
+		// This should only be true if one of the polynomial vectors is actually a polynomial.
 		// Convert it to a polynomial and do the multiplication as if it was with just the scalar.
-		out = pv.Multiply(right[0])
+		if len(right) != 1 {
+			out = VectorMultiplyTemplate(right, pv[0])
+		} else {
+			out = pv.Multiply(right[0])
+		}
 
 	default:
 		panic(
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..8fc711f 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -204,9 +204,13 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 	case ScalarExpression:
 		out = VectorMultiplyTemplate(vv, right)
 	case VectorExpression:
-		// Vector of polynomials must be (1x1)
+		// One of the two vectors must be (1x1)
 		rightAsVE, _ := ToVectorExpression(right)
-		out = vv.Multiply(rightAsVE.AtVec(0))
+		if rightAsVE.Len() != 1 {
+			out = VectorMultiplyTemplate(rightAsVE, vv[0])
+		} else {
+			out = vv.Multiply(rightAsVE.AtVec(0))
+		}
 	default:
 		// Otherwise, panic
 		panic(
-- 
2.43.0


From 2541d5ff016a874c7efe9260f4091c570cdae279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 15/29] fix: a sum with a (1x1) matrix treats that matrix as a
 scalar instead of dropping entries of the other

---
 symbolic/monomial_matrix.go   |  5 +++++
 symbolic/polynomial_matrix.go | 17 +++++++++++++++++
 symbolic/variable_matrix.go   |  5 +++++
 3 files changed, 27 insertions(+)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..7d87f10 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -179,6 +179,11 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		}
 		return sum
 	case PolynomialMatrix:
+		// A (1x1) matrix acts as a scalar
+		if len(mm) == 1 && len(mm[0]) == 1 && (len(right) != 1 || len(right[0]) != 1) {
+			return right.Plus(mm[0][0])
+		}
+
 		// Create containers
 		var sum PolynomialMatrix
 
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 99e122b..61023cf 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -150,6 +150,18 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		// Create containers
 		var sum [][]ScalarExpression
 
+		// A (1x1) matrix acts as a scalar
+		if len(pm) == 1 && len(pm[0]) == 1 {
+			for _, row := range right {
+				var sumRow []ScalarExpression
+				for _, constant := range row {
+					sumRow = append(sumRow, pm[0][0].Plus(constant).(ScalarExpression))
+				}
+				sum = append(sum, sumRow)
+			}
+			return ConcretizeExpression(sum).AsSimplifiedExpression()
+		}
+
 		for ii, row := range pm {
 			var sumRow []ScalarExpression
 			for jj, polynomial := range row {
@@ -160,6 +172,11 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		out = ConcretizeExpression(sum)
 
 	case PolynomialMatrix:
+		// A (1x1) matrix acts as a scalar
+		if len(pm) == 1 && len(pm[0]) == 1 && (len(right) != 1 || len(right[0]) != 1) {
+			return right.Plus(pm[0][0])
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..4a0cad8 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -138,6 +138,11 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
+		// A (1x1) matrix acts as a scalar
+		if len(vm) == 1 && len(vm[0]) == 1 && (len(right) != 1 || len(right[0]) != 1) {
+			return right.Plus(vm[0][0])
+		}
+
 		// Create a new matrix of polynomials.
 		var pmOut PolynomialMatrix
 		for ii, vmRow := range vm {
-- 
2.43.0


From 3e840d2f38dc018b361f1a02d624f0758f665b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:46 +0000
Subject: [PATCH 16/29] fix: a product with a (1x1) matrix or vector treats it
 as a scalar instead of dropping entries of the other

---
 symbolic/constant_matrix.go   |  8 ++++++++
 symbolic/monomial_matrix.go   |  5 +++++
 symbolic/polynomial_matrix.go |  5 +++++
 symbolic/variable_matrix.go   | 10 ++++++++++
 4 files changed, 28 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..6fffc49 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -251,6 +251,14 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 		}
 
 	case VariableVector:
+		// A (1x1) operand acts as a scalar
+		if len(km) == 1 && len(km[0]) == 1 && len(right) != 1 {
+			return VectorMultiplyTemplate(right, km[0][0]).AsSimplifiedExpression()
+		}
+		if len(right) == 1 && len(km[0]) != 1 {
+			return km.Multiply(right[0].ToPolynomial())
+		}
+
 		// Choose the correct output type based on the size of km
 		nR := km.Dims()[0]
 		if nR == 1 {
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 7d87f10..5587757 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -286,6 +286,11 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		}
 		return product
 	case VariableVector:
+		// A (1x1) matrix acts as a scalar
+		if nRows == 1 && len(mm[0]) == 1 && len(right) != 1 {
+			return VectorMultiplyTemplate(right, mm[0][0])
+		}
+
 		if nRows == 1 {
 			// Output will be a scalar expression
 			var product Expression = K(0.0)
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 61023cf..1669bef 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -288,6 +288,11 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(product)
 	case VariableVector:
+		// A (1x1) matrix acts as a scalar
+		if len(pm) == 1 && len(pm[0]) == 1 && len(right) != 1 {
+			return VectorMultiplyTemplate(right, pm[0][0]).AsSimplifiedExpression()
+		}
+
 		// Identify output dimensions
 		nResultRows := pm.Dims()[0]
 
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 4a0cad8..ef26822 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -258,6 +258,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		}
 		out = mmOut
 	case KVector:
+		// A (1x1) matrix acts as a scalar
+		if len(vm) == 1 && len(vm[0]) == 1 && len(right) != 1 {
+			return VectorMultiplyTemplate(right, vm[0][0]).AsSimplifiedExpression()
+		}
+
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
 
@@ -279,6 +284,11 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use the KVector case
 		out = vm.Multiply(VecDenseToKVector(right))
 	case VariableVector:
+		// A (1x1) matrix acts as a scalar
+		if len(vm) == 1 && len(vm[0]) == 1 && len(right) != 1 {
+			return VectorMultiplyTemplate(right, vm[0][0]).AsSimplifiedExpression()
+		}
+
 		// Output will be another vector
 		nVMCols := vm.Dims()[1]
 		var result Expression = K(0.0)
-- 
2.43.0


From 2e350dbdd493d7cff7af6b489bc8f61ab464ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 17/29] fix: Monomial.ToVariable refuses a scaled variable, as
 documented

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 7116a2e..29311e5 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -574,7 +574,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.Coefficient == 1.0 && m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0


From dc4b955ddf3284a90c21569f8c4b35e77bc538ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:51 +0000
Subject: [PATCH 18/29] fix: substituting a map into a vector or matrix applies
 all substitutions at once

---
 symbolic/matrix_expression.go | 15 +++++++++++++++
 symbolic/monomial_matrix.go   |  7 +------
 symbolic/monomial_vector.go   |  9 ++-------
 symbolic/polynomial_matrix.go |  8 +-------
 symbolic/polynomial_vector.go |  8 +-------
 symbolic/variable_matrix.go   |  8 +-------
 symbolic/variable_vector.go   |  9 +--------
 symbolic/vector_expression.go | 11 +++++++++++
 8 files changed, 33 insertions(+), 42 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..8b77143 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -300,6 +300,21 @@ func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpr
 	return ConcretizeMatrixExpression(out)
 }
 
+// substituteInMatrix applies every substitution of the map to each entry at once
+// (the substituted expressions are not searched for further keys of the map).
+func substituteInMatrix(me MatrixExpression, subMap map[Variable]Expression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < me.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < me.Dims()[1]; jj++ {
+			tempRow = append(tempRow, me.At(ii, jj).SubstituteAccordingTo(subMap).(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+
+	return ConcretizeMatrixExpression(out)
+}
+
 // ConcretizeMatrixExpression Converts the input expression to a valid type that implements "MatrixExpression".
 func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 	// Input Processing
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 5587757..e0d7363 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -593,12 +593,7 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
-	}
-	return out
+	return substituteInMatrix(mm, substitutions)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..c4d20ee 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -511,13 +511,8 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
-	}
-	return out
+	// Algorithm
+	return substituteInVector(mv, subMap)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 1669bef..41ae1de 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -611,13 +611,7 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return substituteInMatrix(pm, subMap)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 824162c..1fcf3e7 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -514,13 +514,7 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
-	}
-
-	return result
+	return substituteInVector(pv, subMap)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index ef26822..887ff5c 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -597,13 +597,7 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	return substituteInMatrix(vm, subMap)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 8fc711f..ab3e929 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -480,14 +480,7 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
-	}
-
-	return out
-
+	return substituteInVector(vv, subMap)
 }
 
 // Power Raises the variable vector to the power of the input integer
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 85fa9a8..c592cc9 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -327,6 +327,17 @@ func VectorSubstituteTemplate(ve VectorExpression, vIn Variable, se ScalarExpres
 	return ConcretizeVectorExpression(result)
 }
 
+// substituteInVector applies every substitution of the map to each entry at once
+// (the substituted expressions are not searched for further keys of the map).
+func substituteInVector(ve VectorExpression, subMap map[Variable]Expression) VectorExpression {
+	var result []ScalarExpression
+	for ii := 0; ii < ve.Len(); ii++ {
+		result = append(result, ve.AtVec(ii).SubstituteAccordingTo(subMap).(ScalarExpression))
+	}
+
+	return ConcretizeVectorExpression(result)
+}
+
 // VectorPowerTemplate Defines the template for the vector power operation.
 func VectorPowerTemplate(base VectorExpression, exponent int) Expression {
 	// Setup
-- 
2.43.0


From 72cc58c9f7456babed6013d1c5f99d45fc3a9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 19/29] fix: Variable.Plus checks its right operand like the
 other operations do

---
 symbolic/variable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..81279be 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err := rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0


From 1ad6c554cfd6c047c6b23825b578b805425993ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:35 +0000
Subject: [PATCH 20/29] fix: VariableMatrix.DerivativeWrt checks its variable
 like the other kinds do

---
 symbolic/variable_matrix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 887ff5c..a084bed 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -434,6 +434,11 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 		panic(err)
 	}
 
+	err = v.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	kmOut := DenseToKMatrix(
 		ZerosMatrix(vm.Dims()[0], vm.Dims()[1]),
-- 
2.43.0


From b796aa6dc465bcb13f240016e33ef1a1fae979e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:08 +0000
Subject: [PATCH 21/29] fix: VariableMatrix.Plus must accept constant matrices
 with zero entries

---
 symbolic/variable_matrix.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index a084bed..2f50809 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -148,7 +148,11 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		for ii, vmRow := range vm {
 			var pmRow []Polynomial
 			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
+				// The sum is kept as a polynomial (even when the constant is zero)
+				sum := Polynomial{
+					Monomials: []Monomial{v.ToMonomial(), right[ii][jj].ToMonomial()},
+				}
+				pmRow = append(pmRow, sum.Simplify())
 			}
 			pmOut = append(pmOut, pmRow)
 		}
-- 
2.43.0


From 316510e304e6973dc48a1ce97145b462cb47e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 22/29] fix: VariableMatrix.Multiply must accept the constants
 0 and 1

---
 symbolic/variable_matrix.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 2f50809..d8f773f 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -256,7 +256,10 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		for _, vmRow := range vm {
 			var mmRow []Monomial
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				// The entry is kept as a monomial (even when it is just v or zero)
+				product := v.ToMonomial()
+				product.Coefficient = float64(right)
+				mmRow = append(mmRow, product)
 			}
 			mmOut = append(mmOut, mmRow)
 		}
-- 
2.43.0


From af51701dde6d5f4f906ebf16315578c7351bdb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 23/29] fix: (1x1) matrices can be raised to a power

---
 symbolic/matrix_expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 8b77143..d5cf34c 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -161,6 +161,13 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 		})
 	}
 
+	// A (1x1) matrix is raised to the power through its only entry
+	// (products of such matrices are turned into scalars)
+	if me.Dims()[0] == 1 {
+		entry := me.At(0, 0).Power(exponent).(ScalarExpression)
+		return ConcretizeMatrixExpression([][]ScalarExpression{{entry}})
+	}
+
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-- 
2.43.0


From c820080715b0fc375ae084c3bd8853b22b285dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 24/29] fix: constraints with a single entry or column can be
 simplified and represented linearly

---
 symbolic/constraint.go        | 25 +++++++++++++++++++++++++
 symbolic/matrix_constraint.go |  4 ++--
 symbolic/vector_constraint.go | 12 ++++++------
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index ee39865..567c7c7 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -116,3 +116,28 @@ func CompileConstraintsIntoScalarConstraints(constraints []Constraint) []ScalarC
 
 	return out
 }
+
+// sideAsVector returns the side of a vector constraint as a vector, because the
+// operations turn vectors with a single entry into scalars.
+func sideAsVector(side Expression) VectorExpression {
+	if sideAsScalar, tf := side.(ScalarExpression); tf {
+		return ConcretizeVectorExpression([]ScalarExpression{sideAsScalar})
+	}
+	return side.(VectorExpression)
+}
+
+// sideAsMatrix returns the side of a matrix constraint as a matrix, because the
+// operations turn matrices with a single column into vectors (or scalars).
+func sideAsMatrix(side Expression) MatrixExpression {
+	switch s := side.(type) {
+	case ScalarExpression:
+		return ConcretizeMatrixExpression([][]ScalarExpression{{s}})
+	case VectorExpression:
+		var rows [][]ScalarExpression
+		for ii := 0; ii < s.Len(); ii++ {
+			rows = append(rows, []ScalarExpression{s.AtVec(ii)})
+		}
+		return ConcretizeMatrixExpression(rows)
+	}
+	return side.(MatrixExpression)
+}
diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..a2e06de 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -170,8 +170,8 @@ func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  sideAsMatrix(newLHS),
+		RightHandSide: sideAsMatrix(newRHS),
 		Sense:         mc.Sense,
 	}
 }
diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..42a305d 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -140,8 +140,8 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	// Create A
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = sideAsVector(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = sideAsVector(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	A = newLHS.LinearCoeff(wrt...)
 
@@ -205,8 +205,8 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	// Create C
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = sideAsVector(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = sideAsVector(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	C = newLHS.LinearCoeff(wrt...)
 
@@ -287,8 +287,8 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  sideAsVector(newLHS),
+		RightHandSide: sideAsVector(newRHS),
 		Sense:         vc.Sense,
 	}
 }
-- 
2.43.0


From 8b95458a9fb015d5ee6484f82b84367ce424bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:46 +0000
Subject: [PATCH 25/29] fix: MonomialMatrix.Multiply must accept vectors whose
 products combine to a monomial or constant

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index e0d7363..aed2bcc 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -308,7 +308,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
-- 
2.43.0


From 2060ca62f8bcb83d8aa769bdcd9754b9b14ffb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:08 +0000
Subject: [PATCH 26/29] fix: VariablesInThisConstraint lists each variable once
 and in a fixed order

---
 symbolic/constraint.go | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index 567c7c7..4df32aa 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -53,32 +53,15 @@ func IsConstraint(c interface{}) bool {
 
 // VariablesInThisConstraint returns a slice of all the variables in the constraint.
 func VariablesInThisConstraint(c Constraint) []Variable {
-	// Setup
-	varsMap := make(map[Variable]bool)
-
 	// Input check
 	err := c.Check()
 	if err != nil {
 		panic(err)
 	}
 
-	// Get variables from the left hand side
-	for _, v := range c.Left().Variables() {
-		varsMap[v] = true
-	}
-
-	// Get variables from the right hand side
-	for _, v := range c.Right().Variables() {
-		varsMap[v] = true
-	}
-
-	// Convert the map to a slice
-	vars := make([]Variable, 0, len(varsMap))
-	for v := range varsMap {
-		vars = append(vars, v)
-	}
-
-	return vars
+	// Collect the variables of both sides, each of them once and in the order of
+	// their first appearance
+	return UnionOfVariables(c.Left().Variables(), c.Right().Variables())
 }
 
 // CompileConstraintsIntoScalarConstraints This method analyzes all constraints in an OptimizationProblem and converts them all
-- 
2.43.0


From 39e1c4a0a3bf4c389d2c7e9ae98b60056680dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:59 +0000
Subject: [PATCH 27/29] fix: Polynomial.LinearCoeff adds up the monomials of
 the same variable

---
 symbolic/polynomial.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 61e9131..cd5bc5a 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -673,11 +673,14 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
-		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		// Add the coefficients of all monomials which represent this variable
+		coeff := 0.0
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeff += monomial.Coefficient
+			}
 		}
+		coeffOut.SetVec(ii, coeff)
 	}
 
 	return coeffOut
-- 
2.43.0


From 6ef318bc83d2d834f81163cfb53b08a764c60d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 28/29] fix: new variables get an ID that no tracked variable
 of the environment has

---
 symbolic/variable.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 81279be..c2969af 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -388,6 +388,20 @@ func NewVariable(envs ...Environment) Variable {
 	return NewContinuousVariable(envs...)
 }
 
+// nextVariableID returns an ID that no variable tracked by the environment has.
+// (Tracked variables may have been created elsewhere, so their number is not
+// necessarily larger than all of their IDs.)
+func nextVariableID(env Environment) uint64 {
+	tracked := env.AllTrackedVariables()
+	nextID := uint64(len(tracked))
+	for _, v := range tracked {
+		if v.ID >= nextID {
+			nextID = v.ID + 1
+		}
+	}
+	return nextID
+}
+
 // NewContinuousVariable Creates a new continuous variable.
 func NewContinuousVariable(envs ...Environment) Variable {
 	// Constants
@@ -400,11 +414,11 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       float64(-Infinity),
 		Upper:       float64(+Infinity),
 		Type:        Continuous,
@@ -431,11 +445,11 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       0.0,
 		Upper:       1.0,
 		Type:        Binary,
-- 
2.43.0


From 0df9d7bf31d161ff97a95f2875d0c3bf64728eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:02 +0000
Subject: [PATCH 29/29] fix: keep the simplified entries of sums with a matrix
 of monomials

---
 symbolic/monomial_matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index aed2bcc..b054a32 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -127,7 +127,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -141,7 +141,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -156,7 +156,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -173,7 +173,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right.Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -193,7 +193,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
-- 
2.43.0

