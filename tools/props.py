def P(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})
    d.update(kw)
    return d

S = 'symbolic/'
VA = 'value analysis: gated value numbering over SSA with loop summaries; both sides normalised in a formal real algebra and compared for all inputs'
PROPS = [
P('C01', 'No operation changes its operands or any shared state',
  'Calling any operation of the library on expressions, vectors, matrices, constraints, substitution maps or gonum objects leaves every one of those inputs exactly as it was, also when the call ends in a panic, and changes no package-level state. The only state the library ever changes is an environment\'s registry of variables, and only when variables are created or explicitly registered.',
  ['inputs', 'histories'], 'every exported function and method, every operand of every kind and every sequence of calls that re-uses operands',
  'Tests look at results; they almost never re-inspect the operands afterwards, and mutations that depend on spare slice capacity or a particular term order only show up in later, unrelated results.',
  [S+'monomial.go', S+'polynomial.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', S+'basic_environment.go'],
  [('copy before modify', 'symbolic/monomial.go Copy, symbolic/polynomial.go Copy, Plus, Multiply, DerivativeWrt'), ('fresh backing arrays', 'every append-built result'), ('registry', 'symbolic/basic_environment.go TrackVariable')],
  technique='interprocedural write-effect analysis on SSA (flow-sensitive locals, access-path regions)',
  note='sound up to the external-call model; closures are analysed at their creation site; every exported operation is an obligation'),
P('C02', 'Copies, conversions and extracted data own their storage',
  'A copy, a derivative, a list of variables, a gonum vector or matrix obtained from an expression, or the result of converting an expression (or gonum/raw numeric data) into another kind shares no mutable storage with what it was computed from: later edits of one are never visible in the other.',
  ['inputs', 'histories'], 'every operation that hands out a copy, conversion, variable list or numeric data, for every operand',
  'Sharing is invisible until someone later edits one of the two objects; tests compare values right after the call.',
  [S+'monomial.go', S+'polynomial.go', S+'variable.go', S+'constant_vector.go', 'get/KVector/from.go', 'get/KMatrix/from.go'],
  [('deep copies', 'symbolic/monomial.go Copy, symbolic/polynomial.go Copy'), ('variable lists', 'Variables() of every kind'), ('numeric exports', 'ToVecDense, ToDense, Constant, LinearCoeff')],
  technique='interprocedural alias/ownership analysis on SSA',
  note='sound up to the external-call model; environments are shared by design and excluded'),
P('C03', 'A comparison builds exactly the constraint that was written',
  'Comparing any expression with any operand the library accepts (another expression, a number, gonum data) yields the constraint whose left side is the receiver, whose right side is the operand and whose sense is the requested one. Numbers and gonum data appear as the equal constants; a scalar compared with a vector or matrix is placed against every entry of the same shape. LessEq, GreaterEq and Eq are the comparisons with <=, >= and ==. Operand kinds that are accepted stay accepted.',
  ['inputs'], 'every expression kind, every operand kind, every sense, every content and size',
  'The sides, the broadcast shape and the sense must be right for every pair of kinds and every content; tests look at a few pairs and mostly only at whether an error occurs.',
  [S+'constant.go', S+'constant_vector.go', S+'constant_matrix.go', S+'variable.go', S+'variable_vector.go', S+'variable_matrix.go', S+'monomial.go', S+'polynomial.go', S+'scalar_expression.go'],
  [('comparison', 'Comparison, LessEq, GreaterEq, Eq of every expression kind'), ('broadcast', 'OnesVector/OnesMatrix products and scalar-vector comparisons')],
  technique='value analysis: gated value numbering over SSA with loop summaries, compared with the specified result for all inputs',
  note='arithmetic equality over the reals; the table of accepted operand kinds was confirmed by reading'),
P('C04', 'Constraint transformations keep the meaning of the constraint',
  'Left, Right, ConstrSense, At/AtVec, Len and Dims of a constraint return the matching part of it. Substitution into a constraint substitutes the same thing into both sides and keeps the sense. ScaleBy multiplies both sides by the factor and turns <= into >= (and back) exactly when the factor is negative. Simplification keeps left minus right unchanged, keeps the sense, leaves only a constant on the right, and AsSimplifiedConstraint leaves no constant on the left. Compiling a list of constraints lists every scalar element exactly once, in order, with its own sense.',
  ['inputs'], 'every scalar, vector and matrix constraint over any sides and senses, every factor, variable, substitution and constraint list',
  'A lost constant, a forgotten sense flip or a swapped side is only visible for particular sides, senses and signs; the identity must hold for all of them.',
  [S+'scalar_constraint.go', S+'vector_constraint.go', S+'matrix_constraint.go', S+'constraint.go'],
  [('scaling', 'ScalarConstraint.ScaleBy'), ('simplification', 'Simplify, AsSimplifiedConstraint'), ('compilation', 'CompileConstraintsIntoScalarConstraints')],
  technique='value analysis (gated value numbering over SSA) compared with specifications; simplification checked as a linear identity over both sides',
  note='assumes Plus/Minus/Multiply by a number and Constant of the sides mean what they say (checked separately)'),
P('C05', 'Linear representations of constraints are equivalent to the constraint',
  'LinearInequalityConstraintRepresentation returns A, b with A x <= b exactly equivalent to the constraint, and LinearEqualityConstraintRepresentation returns C, d with C x == d exactly equivalent to it: coefficients are those of left minus right in the order of the requested variables, the bound is constant(right) minus constant(left), both negated exactly for >=. A constraint with a nonlinear side, or of the other sense, is refused by a panic and never yields a representation.',
  ['inputs'], 'every scalar and vector constraint, every sense, every list of variables',
  'Sign, order and offset must be right for every combination of sides and senses, and nonlinear inputs must never slip through; tests fix a few small constraints.',
  [S+'scalar_constraint.go', S+'vector_constraint.go'],
  [('inequality form', 'LinearInequalityConstraintRepresentation'), ('equality form', 'LinearEqualityConstraintRepresentation')],
  technique='value analysis (gated value numbering over SSA) of every sense, compared entry by entry with the specified coefficients and bound',
  note='LinearCoeff and Constant of the sides are taken as given here'),
P('C06', 'A reported implication or non-negativity is a true one',
  'ImpliesThisIsAlsoSatisfied returns true only if every assignment that satisfies the receiver satisfies the other constraint; a vector or matrix constraint reports an implication only if one of its own elements does. IsNonnegativityConstraint returns true exactly for constraints that say c*x >= 0 with c > 0 or c*x <= 0 with c < 0 for a single variable x.',
  ['inputs'], 'every pair of constraints: every sense, sign of the coefficients, order of the bounds, and shape of the sides',
  'The claim is universally quantified over assignments and over all coefficient signs, senses and bound orders; a single wrong corner makes the answer unsound.',
  [S+'scalar_constraint.go', S+'vector_constraint.go', S+'matrix_constraint.go'],
  [('bound comparison', 'ScalarConstraint.ImpliesThisIsAlsoSatisfied'), ('element search', 'VectorConstraint/MatrixConstraint.ImpliesThisIsAlsoSatisfied'), ('non-negativity', 'ScalarConstraint.IsNonnegativityConstraint')],
  technique='value analysis to obtain the return condition, then three-valued evaluation of it over a complete finite sign/sense abstraction',
  note='soundness of a positive answer; the negative answer is only checked for non-negativity'),
P('C07', 'Plus and Minus compute the sum and the difference, entry by entry',
  'For every two operands the library agrees to add or subtract (scalars, vectors, matrices, Go numbers, gonum vectors and matrices), the result of Plus, of Minus and of the package function Minus denotes, for every value of the variables, exactly the sum or the difference of what the operands denote: same shape, entry by entry, a scalar or one-by-one operand being combined with every entry of the other. Pairs of kinds that are accepted stay accepted.',
  ['inputs'], 'every accepted pair of kinds, every size, every coefficient, every pattern of repeated, cancelling, constant or unsorted terms',
  'The result must be right for every size and every list of terms; merging of like terms, constants and cancellations depends on term contents that a few sample sums cannot cover.',
  [S+'constant.go', S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'constant_vector.go', S+'variable_vector.go', S+'monomial_vector.go', S+'polynomial_vector.go', S+'constant_matrix.go', S+'variable_matrix.go', S+'monomial_matrix.go', S+'polynomial_matrix.go', S+'scalar_expression.go', S+'vector_expression.go', S+'matrix_expression.go'],
  [('scalar sums', 'Plus of K, Variable, Monomial, Polynomial'), ('entrywise sums', 'Plus of the vector and matrix kinds, VectorPlusTemplate, MatrixPlusTemplate'), ('differences', 'Minus of every kind, symbolic.Minus')],
  technique=VA, note='over the reals (no rounding); monomials list each variable at most once; each operation is decided relative to the meaning of the operations it calls, which are obligations of their own'),
P('C08', 'Multiply and Power compute the product and the power',
  'For every two operands the library agrees to multiply, the result of Multiply denotes, for every value of the variables, exactly their product: the scalar product, the entrywise scaling by a scalar (or one-by-one) operand, or the matrix product with the right shape and every term of every entry. Power denotes the repeated product, with the zeroth power being one. Pairs of kinds that are accepted stay accepted.',
  ['inputs'], 'every accepted pair of kinds, every size, every coefficient, every exponent, shared or disjoint variables',
  'Exponents must add up variable by variable and every row and column must be summed over, whatever the sizes and term lists; sample products fix a few of them.',
  [S+'constant.go', S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'constant_vector.go', S+'variable_vector.go', S+'monomial_vector.go', S+'polynomial_vector.go', S+'constant_matrix.go', S+'variable_matrix.go', S+'monomial_matrix.go', S+'polynomial_matrix.go', S+'scalar_expression.go', S+'vector_expression.go', S+'matrix_expression.go'],
  [('scalar products', 'Multiply of K, Variable, Monomial, Polynomial'), ('matrix products', 'Multiply of the vector and matrix kinds, VectorMultiplyTemplate, MatrixMultiplyTemplate'), ('powers', 'Power, ScalarPowerTemplate, VectorPowerTemplate, MatrixPowerTemplate')],
  technique=VA, note='over the reals (no rounding); monomials list each variable at most once; each operation is decided relative to the meaning of the operations it calls'),
P('C09', 'Substitution replaces exactly the named variables, all at once',
  'Substitute(v, e) denotes the original with every occurrence of v (identified by its ID), to whatever power and in every term and entry, replaced by e, and nothing else changed. SubstituteAccordingTo(map) replaces all variables of the map at once by their images (an image is not itself substituted into), leaving the others alone. Shapes are kept.',
  ['inputs'], 'every expression of every kind, every variable, every scalar replacement, every map',
  'Occurrences hide in any term, position and power, and replacements may contain the replaced variables again; sequences that look right on one sample are wrong on another.',
  [S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'constant.go', S+'scalar_expression.go', S+'vector_expression.go', S+'matrix_expression.go', S+'polynomial_vector.go', S+'polynomial_matrix.go'],
  [('single substitution', 'Substitute of every kind, VectorSubstituteTemplate, MatrixSubstituteTemplate'), ('simultaneous substitution', 'SubstituteAccordingTo of every kind')],
  technique=VA, note='over the reals; replacements are scalars; one ID denotes one variable'),
P('C10', 'DerivativeWrt computes the partial derivative of every entry',
  'DerivativeWrt(v) of any expression denotes, for every value of the variables, the partial derivative of each entry with respect to v (v identified by its ID), with the shape of the original.',
  ['inputs'], 'every expression of every kind and size, every variable, occurring or not, to whatever power',
  'Coefficient, exponent and position must be right for every exponent and every term, whether or not the variable occurs; tests differentiate a few small samples.',
  [S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'constant.go', S+'variable_vector.go', S+'monomial_vector.go', S+'polynomial_vector.go', S+'variable_matrix.go', S+'monomial_matrix.go', S+'polynomial_matrix.go'],
  [('derivatives', 'DerivativeWrt of every kind')],
  technique=VA, note='over the reals; monomials list each variable at most once, exponents are not negative'),
P('C11', 'Simplification, copies and conversions keep the value',
  'Simplify, AsSimplifiedExpression and Copy, every conversion between kinds (ToMonomial, ToPolynomial, ToVariable, To...Vector, To...Matrix, ToScalarExpressions, ToExpression and its scalar, vector, matrix and polynomial-like variants, Concretize..., gonum and raw numeric data to and from KVector and KMatrix) give an object that denotes, for every value of the variables, exactly what the original denotes: same shape, same entries in the same places.',
  ['inputs'], 'every operation of this family, every input it accepts, every size and content',
  'Merging like terms and changing kinds must never lose, duplicate or move a term, for any list of terms; tests check a handful of shapes.',
  [S+'polynomial.go', S+'monomial.go', S+'variable.go', S+'constant.go', S+'expression.go', S+'scalar_expression.go', S+'vector_expression.go', S+'matrix_expression.go', S+'polynomial_like.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', 'get/KVector/from.go', 'get/KMatrix/from.go'],
  [('simplification', 'Polynomial.Simplify and its users'), ('kind conversion', 'To* methods, ConcretizeExpression and relatives'), ('numeric data', 'getKVector.From, getKMatrix.From, VecDenseToKVector, DenseToKMatrix')],
  technique=VA, note='over the reals; conversions that return an error are only decided when they return no error'),
P('C12', 'Shape, position, transposition and stacking are those of linear algebra',
  'Dims and Len give the true number of rows and columns; At(i, j) and AtVec(i) give the entry in row i and column j; Transpose puts entry (i, j) at (j, i); HStack and VStack put their blocks next to or below one another with every entry in its place; OnesVector, ZerosVector, OnesMatrix, ZerosMatrix and Identity have the requested shape and entries.',
  ['inputs'], 'every kind, every size (including single rows and columns), every position, every number of blocks',
  'Index arithmetic must be right for all sizes, including non-square and one-row or one-column shapes; tests use a few square ones.',
  [S+'expression.go', S+'constant_vector.go', S+'variable_vector.go', S+'monomial_vector.go', S+'polynomial_vector.go', S+'constant_matrix.go', S+'variable_matrix.go', S+'monomial_matrix.go', S+'polynomial_matrix.go'],
  [('shape', 'Dims, Len'), ('position', 'At, AtVec'), ('transposition', 'Transpose'), ('stacking', 'HStack, VStack'), ('builders', 'OnesVector, ZerosVector, OnesMatrix, ZerosMatrix, Identity')],
  technique=VA, note='vectors and matrices have at least one row and one column; valid positions'),
P('C13', 'Coefficients, degrees and predicates are those of the polynomial',
  'For every expression, Constant is the sum of the coefficients of the terms without variables and LinearCoeff lists, for each requested variable in order, the sum of the coefficients of the terms that are exactly that variable, entry by entry for vectors and matrices. Degree is the largest total exponent of a term. IsLinear, IsQuadratic, IsConstant and IsZero answer true exactly when the degree, the absence of variables or the coefficient says so, also for the sides of a constraint.',
  ['inputs'], 'every kind, every number of terms, repeated terms, every order, every list of requested variables',
  'A term that is skipped, overwritten or counted twice only shows for particular numbers, orders and repetitions of terms, and everything built on the coefficients (linear representations, bounds) is silently wrong.',
  [S+'monomial.go', S+'polynomial.go', S+'variable.go', S+'constant.go', S+'monomial_vector.go', S+'monomial_matrix.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', S+'polynomial_like_vector.go', S+'expression.go'],
  [('constant part', 'Constant of every kind'), ('linear coefficients', 'LinearCoeff of every kind, PolynomialLikeVector_SharedLinearCoeffCalc'), ('degree', 'Degree of every kind'), ('predicates', 'IsLinear, IsQuadratic, IsConstant, IsZero')],
  technique=VA,
  note='a monomial lists each of its variables once, with exponents of at least one; a term with coefficient zero still counts for the degree'),
P('C14', 'Variable lists are complete, duplicate-free and exact',
  'The variables an expression or a constraint reports are exactly the variables that occur in it, each listed once, and NumVariables and VariableIDs agree with that list. UniqueVars and Unique keep exactly the distinct entries of a list and UnionOfVariables those of all its lists; FindInSlice returns the position of an equal entry, or -1 exactly when there is none.',
  ['inputs'], 'every expression and constraint kind, every number and arrangement of occurrences, every list',
  'A variable lost or listed twice only shows for particular repetitions across terms, entries or sides; every solver interface indexes its columns by these lists.',
  [S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'variable_vector.go', S+'variable_matrix.go', S+'monomial_vector.go', S+'monomial_matrix.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', S+'expression.go', S+'constraint.go', S+'utils.go'],
  [('collection', 'Variables of every kind, VariablesInThisConstraint'), ('distinctness', 'UniqueVars, Unique, UnionOfVariables'), ('search', 'FindInSlice'), ('counts', 'NumVariables, VariableIDs')],
  technique='value analysis: gated value numbering over SSA with list summaries; the resulting lists are compared with the specified ones as set comprehensions, and their duplicate-freeness is derived',
  note='a variable is identified by its ID; the factors of a monomial are distinct'),
P('C15', 'Operands that cannot be combined are refused, never silently accepted',
  'Plus, Minus, Multiply, Comparison, LessEq, GreaterEq and Eq never return a result (they panic) when the operand is of a type the library does not know, when a receiver or operand that contains variables is ill-formed (its Check reports an error), or when the shapes of two vectors or matrices do not fit. Power, Transpose, DerivativeWrt, Substitute and SubstituteAccordingTo never return a result for an ill-formed receiver (Transpose of a single Variable excepted), and neither do DerivativeWrt and Substitute for an ill-formed variable. Power refuses negative exponents and objects that are not square; At and AtVec refuse positions outside the object; HStack and VStack refuse an empty list and blocks whose rows (columns) do not match.',
  ['inputs'], 'every operation, every pair of kinds, every ill-formed operand and every pair of shapes that do not fit',
  'A lost check lets a wrong-sized or uninitialised operand produce a plausible wrong result; tests try a few bad operands of a few operations, the guarantee is for every operation and every bad operand.',
  [S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'variable_vector.go', S+'monomial_vector.go', S+'polynomial_vector.go', S+'variable_matrix.go', S+'monomial_matrix.go', S+'polynomial_matrix.go', S+'expression.go', 'smErrors/matrix_dimension_error.go'],
  [('operand checks', 'the Check and CheckDimensionsIn... calls at the start of every operation'), ('unsupported operands', 'the default cases of the type switches'), ('positions', 'At, AtVec, CheckIndexOnMatrix, CheckIndexOnVector'), ('stacking', 'CheckDimensionsInHStack, CheckDimensionsInVStack')],
  technique='value analysis (gated value numbering over SSA) of every operation under the assumption that its operands do not fit: reachability of a normal return',
  note='an operation may leave the refusal to another operation of the list that it hands the operand to; constants are never ill-formed; a failing run-time bounds check counts as a refusal'),
P('C16', 'Operands that fit are accepted',
  'With well-formed operands of the kinds an operation supports and of shapes that fit, and with valid positions and non-negative exponents, no operation panics, fails a type assertion, indexes out of range or lets a dimension error escape: Plus, Minus, Multiply, Comparison and its LessEq/GreaterEq/Eq forms, Power, Transpose, At, AtVec, stacking, derivatives, substitution, coefficient extraction, simplification, conversion and the constraint methods return normally. The supported combinations are listed in smcheck/acctable.txt.',
  ['inputs'], 'every supported operation, every supported pair of kinds, every well-formed pair of operands and every pair of shapes that fit (equal, or a one-entry side)',
  'A spurious refusal or an index error appears only for particular values (a zero entry, a cancelling sum, a single column), which samples miss; the guarantee is for every operand that fits.',
  [S+'constant_matrix.go', S+'constant_vector.go', S+'variable_vector.go', S+'variable_matrix.go', S+'monomial_vector.go', S+'monomial_matrix.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', S+'scalar_constraint.go', S+'vector_constraint.go', S+'matrix_constraint.go', S+'expression.go', 'smErrors/matrix_dimension_error.go'],
  [('accepted kinds', 'the cases of the type switches of every operation'), ('dimension guards', 'CheckDimensionsIn... and the comparisons of Dims()'), ('type assertions', 'the assertions on the results of inner operations'), ('entries', 'the index expressions and the mat.Dense accesses')],
  technique='value analysis (gated value numbering over SSA) of every operation under the assumption that its operands fit: unreachability of every panic, failing assertion and index error, with a concrete-kind analysis of the inner results',
  note='the operations an operation calls are taken at their own obligation; combinations the library does not support are not listed in the table'),
P('C17', 'New variables are new, well-defined and registered',
  'A variable created by NewVariable, NewContinuousVariable or NewBinaryVariable has an identifier that no variable registered in its environment has, is registered there (the registry being otherwise unchanged), belongs to the environment that was asked for (the default one when none is given), and has the bounds and type of its sort. NewVariableVector and NewVariableMatrix have the requested size and every entry is such a new variable of its own. TrackVariable adds a variable exactly when its identifier is not registered yet and reports whether it did.',
  ['histories', 'inputs'], 'every content of the registry (whatever was created or tracked before), every requested size, every environment',
  'Two variables with one identifier are silently the same variable to every operation; collisions need a particular history of creations and registrations across environments that tests do not replay.',
  [S+'variable.go', S+'variable_vector.go', S+'variable_matrix.go', S+'basic_environment.go', S+'environment.go'],
  [('identifiers', 'nextVariableID, NewContinuousVariable, NewBinaryVariable'), ('registry', 'BasicEnvironment.TrackVariable, AllTrackedVariables'), ('collections', 'NewVariableVector, NewVariableMatrixClassic')],
  technique='value analysis (gated value numbering over SSA with the registry as memory): freshness of the identifier by induction over the registry, registry afterwards compared with the specified one, every entry traced to a creation of its own',
  note='environments other than BasicEnvironment are the user\'s; identifiers stay below 2^64-1'),
P('C18', 'The outcome of an operation depends on its operands alone',
  'Calling an operation again with equal operands gives the equal outcome, whatever was called before, in whatever environment, and whichever order the runtime happens to visit a map in: results, the order of variables and terms in them, and whether an operand is refused. Only the creation of variables depends on the registry of an environment.',
  ['histories', 'schedules', 'inputs'], 'every operation, every history of earlier calls, every map iteration order, every operand',
  'Map order and earlier calls vary outside the control of a test; an order-dependent result passes most runs and a history-dependent one every run of a small suite.',
  [S+'constraint.go', S+'utils.go', S+'variable.go', S+'expression.go', S+'monomial.go', S+'polynomial.go', S+'basic_environment.go'],
  [('map iterations', 'CheckSubstitutionMap and every other range over a map'), ('package state', 'DefaultEnvironment and its users'), ('variable order', 'UniqueVars, UnionOfVariables, VariablesInThisConstraint')],
  technique='dataflow analysis on SSA: sources of nondeterminism (ambient calls, goroutines, channels, package state, registry reads) and order-dependence of map iterations through loop-carried values, stores and early exits',
  note='which of several errors is reported may depend on the map order; sharing of storage between results is covered by C01/C02; gonum and the standard packages used are taken as deterministic'),
P('C19', 'Every operation comes to an end',
  'Every exported operation returns or panics after finitely many steps, for every operand: operations hand work to each other (K.Plus to Monomial.Plus, PolynomialMatrix.Plus to K.Plus, Minus to Plus and Multiply, Error and String to the formatting functions), but never so that an operation on some kinds of operands leads back to itself on operands of the same kinds without anything having become smaller. Every loop counts towards a bound that does not move away.',
  ['inputs'], 'every operation, every combination of operand kinds, every operand',
  'Mutual recursion of commuted operations ends or not depending on the pair of kinds, and among several hundred pairs tests visit a fraction; every other guarantee about results presupposes that there is one.',
  [S+'constant.go', S+'constant_matrix.go', S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'variable_matrix.go', S+'monomial_matrix.go', S+'polynomial_matrix.go', S+'polynomial_vector.go', S+'expression.go', S+'scalar_expression.go'],
  [('commuted operations', 'Plus and Multiply of every kind, Minus'), ('delegation', 'AsSimplifiedExpression, Simplify, ScalarPowerTemplate, the vector and matrix templates'), ('loops', 'every for statement')],
  technique='call graph over (operation, operand kinds) computed by value analysis (gated value numbering over SSA), searched for cycles; ranking of every loop on SSA',
  note='the formatting functions of fmt are taken to call String and Error of what they print; integers do not overflow'),
P('C20', 'Terms are recognised as like terms exactly when they are',
  'Two terms count as being of the same form exactly when they contain the same variables, each with the same exponent, whatever the order in which either lists them. A term counts as the linear term of a variable, and as a plain variable, exactly when it is; and looking up the term of a given form (the term of a variable, the constant term) in a sum yields a position that holds such a term, or "none" only when no position does.',
  ['inputs'], 'every pair of terms (any number of variables, any order, any exponents), every sum, every variable',
  'Whether terms are merged depends on the order of their factors and on coincidences between exponents (x^2*y against y^2*x, a subset of the factors); a wrong answer corrupts sums silently, and only for operands with a particular arrangement.',
  [S+'monomial.go', S+'polynomial.go', S+'utils.go'],
  [('form', 'Monomial.MatchesFormOf'), ('single variables', 'Monomial.IsDegreeOneContainingVariable, IsVariable'), ('positions', 'Polynomial.MonomialIndex, VariableMonomialIndex, ConstantMonomialIndex')],
  technique='value analysis (gated value numbering over SSA): the answer as a formula over the two factor lists, refuted against the definition in both directions with quantifier instantiation',
  note='terms list each variable at most once (assumed); variables of one identifier are equal'),
P('C21', 'Validity checks report an error exactly when something is wrong',
  'Check answers nil exactly when the value is well-formed: a variable whose lower bound is below its upper bound, a monomial with one exponent per factor, a polynomial with at least one (well-formed) monomial, vectors and matrices whose entries are all well-formed (at least one entry or row, rows of equal length; a VariableVector may be empty), a known sense, a constraint with well-formed sides, a known sense and sides whose shapes fit. The dimension checks for sums, differences, products, comparisons and stacks, the index checks and the check of a substitution map likewise answer nil exactly when their condition holds. None of them panics, whatever the value (the errors for two columns want vectors).',
  ['inputs'], 'every value of every kind, well-formed or not; every pair of shapes; every index; every substitution map',
  'Every operation relies on these verdicts to refuse bad operands and to accept good ones; a check that overlooks the last entry, a shorter row or one of two sides only fails for values with precisely that flaw.',
  [S+'variable.go', S+'monomial.go', S+'polynomial.go', S+'variable_vector.go', S+'variable_matrix.go', S+'monomial_vector.go', S+'monomial_matrix.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', S+'scalar_constraint.go', S+'vector_constraint.go', S+'matrix_constraint.go', S+'constr_sense.go', S+'utils.go', 'smErrors/matrix_dimension_error.go', 'smErrors/out_of_bounds_error.go'],
  [('values', 'the Check methods of every kind'), ('shapes', 'CheckDimensionsIn...'), ('indices', 'CheckIndexOnMatrix, CheckIndexOnVector'), ('substitutions', 'CheckSubstitutionMap')],
  technique='value analysis (gated value numbering over SSA) without assumptions on the operand: the verdict as a formula over lengths, bounds and entries, proved equivalent to the definition by case distinction and quantifier instantiation',
  note='sides, blocks and map values are not nil interfaces; bounds are not NaN'),
P('C22', 'Objects are recognised as what they are',
  'IsScalarExpression, IsVectorExpression, IsMatrixExpression, IsExpression, their polynomial-like counterparts and IsConstraint answer true exactly for the kinds of that sort (numbers and gonum vectors and matrices included as documented: pointers to gonum objects count as expressions, not as polynomial-like). The conversions ToScalarExpression, ToVectorExpression, ToMatrixExpression, ToExpression and their polynomial-like counterparts succeed without an error for exactly the same objects and refuse all others, whatever their type. IsSquare answers true exactly for as many rows as columns.',
  ['inputs'], 'every object of every dynamic type, every shape',
  'Every operation that takes any operand decides by these answers whether to work or to refuse; the set of dynamic types is open, and a kind missing from one of two lists that must agree fails only for operands of that kind.',
  [S+'expression.go', S+'scalar_expression.go', S+'vector_expression.go', S+'matrix_expression.go', S+'polynomial_like.go', S+'polynomial_like_scalar.go', S+'polynomial_like_vector.go', S+'polynomial_like_matrix.go', S+'constraint.go', 'smErrors/matrix_like.go'],
  [('kinds', 'IsExpression, Is...Expression, IsPolynomialLike..., IsConstraint'), ('conversions', 'ToExpression, To...Expression, ToPolynomialLike...'), ('shapes', 'IsSquare, smErrors.IsScalarExpression')],
  technique='value analysis (gated value numbering over SSA) for an operand of unknown dynamic type: the answer as a formula over the dynamic type, proved equivalent to the list of kinds in both directions',
  note='the values of conversions are the subject of C11'),
P('C23', 'Simplification is complete',
  'A simplified polynomial contains no two like terms and no zero term (unless that is its only one). AsSimplifiedExpression returns the simplest kind: a constant for a constant, a variable for a plain variable, a monomial for a single term and a polynomial otherwise; vectors and matrices are simplified entry by entry and come as the simplest kind that all entries fit in. The results of Plus and Minus of all kinds, and of Multiply (except when a monomial or a matrix of monomials is multiplied by a number, a variable or a monomial), come simplified, entry by entry.',
  ['inputs'], 'every polynomial (any number, order and repetition of terms), every list of scalars, every supported pair of operands',
  'Whether terms meet, cancel or leave a single variable behind depends on coincidences among arbitrarily many terms; programs that inspect the kind of a result, count its terms or print it rely on the simplest form.',
  [S+'polynomial.go', S+'monomial.go', S+'polynomial_vector.go', S+'polynomial_matrix.go', S+'monomial_vector.go', S+'monomial_matrix.go', S+'vector_expression.go', S+'matrix_expression.go', S+'variable.go', S+'constant.go'],
  [('collection of like terms', 'Polynomial.Simplify'), ('simplest kinds', 'AsSimplifiedExpression of every kind, ConcretizeVectorExpression, ConcretizeMatrixExpression'), ('results', 'Plus, Minus and Multiply of every kind')],
  technique='value analysis (gated value numbering over SSA): list of terms by induction over the rounds of the building loops (append only if no entry is of that form, form kept by updates), kinds of results by case analysis',
  note='what counts as a like term is C20, what a simplification denotes is C11; matrices plus a number may stay polynomial matrices with simplified entries'),
]
