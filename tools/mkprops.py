#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that statements and anchors are edited in one place)"""
import json, os
F = 'core/src/function_tree/'; H = 'core/include/bertini2/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=state, meaning='what the property is about')]
    if observe: d['anchors']['observe_at'] = [observe]
    P.append(d)
prop('P01', 'Evaluating an expression gives its mathematical value',
 'Evaluating any expression, in double or multiple precision, returns the value that its formula has at the current values of its variables, up to rounding. This holds for the first evaluation and for every later one that reuses stored values, as long as the expression is reset after the variables change.',
 ['inputs', 'histories'], 'every expression tree, every assignment of variable values, every sequence of set / reset / evaluate calls in either number type',
 'expression trees are unbounded and stored values make the result depend on the call history; tests sample a few trees and one evaluation each',
 [F+'node.cpp', F+'operators/arithmetic.cpp', F+'operators/trig.cpp', F+'symbols/number.cpp', F+'symbols/special_number.cpp', F+'roots/function.cpp', H+'function_tree/node.hpp'],
 [('cached evaluation', 'Node::EvalInPlace'), ('per-operator evaluation', 'FreshEval_d / FreshEval_mp of every node class'), ('cache invalidation', 'Reset / ResetStoredValues'), ('integer powers', 'bertini::pow(complex, int)')],
 'current_value_ (value, valid) pairs in every node', 'Node::Eval<T>()')
prop('P02', 'Symbolic derivatives equal the mathematical derivatives',
 'Differentiating any expression with respect to a variable yields an expression whose value is the partial derivative of the original wherever that exists. The total differential evaluated for a variable gives the same partial derivative, for every variable and in any order of evaluation.',
 ['inputs', 'histories'], 'every expression tree with constant exponents, every variable, every point where the derivative exists, every evaluation order',
 'product, quotient and chain rules interact over arbitrary nesting, operand counts and signs; a test checks a handful of formulas',
 [F+'operators/arithmetic.cpp', F+'operators/trig.cpp', F+'symbols/variable.cpp', F+'symbols/differential.cpp', F+'roots/jacobian.cpp'],
 [('product and quotient rule', 'MultOperator::Differentiate'), ('chain rule', 'Differentiate of every operator class'), ('evaluation of a differential', 'Jacobian::EvalJ')],
 None, 'value of Differentiate(v) and of the total differential')
prop('P03', 'Arithmetic on expressions builds the expression it denotes',
 'Combining expressions and numbers with +, -, *, /, powers, square root, exponential, logarithm and trigonometric functions yields an expression whose value is that operation applied to the values of the operands. Compound assignment leaves every other expression that shares the operands with its old value.',
 ['inputs', 'histories'], 'all operand expressions and constants, all operators and overloads, all sharing patterns',
 'overloads merge operands and reuse sub-expressions in place, so wrong sharing shows only for particular shapes',
 [H+'function_tree/operators/arithmetic.hpp', H+'function_tree/operators/trig.hpp'],
 [('operator overloads', 'operator+,-,*,/ and their compound forms'), ('powers', 'pow overloads')], None, 'value of the resulting expression')
prop('P04', 'Simplification never changes the value of an expression',
 'Simplifying an expression (removing zeros and ones, flattening nested sums and products) leaves its value unchanged at every point, also when sub-expressions are shared. The passes recognise zeros and ones by their value at the current point of the variables, which has to be generic.',
 ['inputs'], 'every expression tree, including shared sub-expressions, and every point',
 'the rewrites edit operand lists in place; wrong signs or dropped operands appear only for particular nestings of differences and quotients',
 [F+'operators/arithmetic.cpp', F+'operators/operator.cpp', F+'simplify.cpp', F+'node.cpp', F+'roots/function.cpp'],
 [('zero and one elimination', 'EliminateZeros / EliminateOnes of the operator classes'), ('flattening', 'ReduceDepth'), ('driver', 'Simplify')], None, 'value before and after Simplify')
prop('P05', 'Reported degrees are true degrees and polynomials are recognised',
 'For an expression that is a polynomial, the degree reported for a variable or for a group of variables is its formal degree in that variable or group, and it is reported as a polynomial. An expression that is not polynomial in the given variables is never reported as polynomial in them.',
 ['inputs'], 'every expression tree built from sums, products, quotients, powers and functions; every variable and every group of variables',
 'the degree rules recurse over arbitrary nesting, and negative degrees that mark non-polynomials can cancel in sums',
 [F+'operators/arithmetic.cpp', F+'operators/operator.cpp', F+'symbols/variable.cpp', F+'node.cpp', F+'roots/function.cpp'],
 [('degree', 'Degree / MultiDegree of every node class'), ('polynomiality', 'Node::IsPolynomial')], None, 'Degree, IsPolynomial')
prop('P06', 'Homogenization preserves the polynomial and makes it homogeneous',
 'Homogenizing a polynomial with respect to a group of variables yields a polynomial that is homogeneous in that group together with the new variable, has the same degree, and agrees with the original wherever the new variable is one. Homogeneity reported for an expression is true of it.',
 ['inputs', 'configurations'], 'every polynomial expression and every grouping of its variables',
 'terms of different degree are scaled by powers chosen per operand; only particular nestings expose a wrong power',
 [F+'operators/arithmetic.cpp', F+'operators/operator.cpp', F+'symbols/variable.cpp', 'core/src/system/system.cpp'],
 [('sum terms are raised to the common degree', 'SumOperator::Homogenize'), ('recursion', 'Homogenize of the other classes'), ('test', 'IsHomogeneous')], None, 'values at scaled points')
prop('P07', 'A straight-line program computes the same values as the expression trees',
 'A system compiled to a straight-line program yields the same function values, Jacobian and time derivatives as evaluating its expressions directly, at every point, in either number type, and after any sequence of evaluations and precision changes.',
 ['inputs', 'histories'], 'every system of expressions, every point and time, every sequence of evaluations and precision changes',
 'instruction and memory layout depend on the whole system; tests of this part do not build and would sample a few systems',
 ['core/src/system/straight_line_program.cpp', H+'system/straight_line_program.hpp'],
 [('interpreter', 'StraightLineProgram::Eval'), ('compiler', 'SLPCompiler::Visit'), ('result copy', 'GetFuncVals / GetJacobian / GetTimeDeriv')], 'program memory and instruction list', 'EvalFunctions, EvalJacobian')
prop('P08', 'System evaluation returns functions, Jacobian and time derivative in order',
 'For any system, entry i of the evaluation is the i-th function at the given point and path time, entry (i,j) of the Jacobian is the derivative of function i by variable j of the variable ordering, the time derivative is the derivative by the path variable, and patch equations occupy the last rows. Dehomogenizing divides each group by its own homogenizing coordinate.',
 ['inputs', 'configurations', 'histories'], 'every system: any number and kind of variable groups, either ordering, with or without path variable, patch and homogenization; every point and every call sequence',
 'layout bugs show only for particular mixtures of groups, ungrouped variables, patches and repeated calls',
 ['core/src/system/system.cpp', H+'system/system.hpp', H+'system/patch.hpp'],
 [('function values', 'System::EvalInPlace'), ('Jacobian', 'System::JacobianInPlace'), ('time derivative', 'System::TimeDerivativeInPlace'), ('variable ordering', 'System::Variables / ordering'), ('dehomogenization', 'System::DehomogenizePoint')], 'variable ordering, current variable values, stored derivatives', 'Eval, Jacobian, TimeDerivative')
prop('P09', 'Adding, scaling, concatenating and copying systems act function by function',
 'The sum of two systems evaluates to the sum of their values, a scaled system to the scaled values, and a concatenation to the values of the first followed by those of the second; their Jacobians agree with that. A cloned system is independent of the original.',
 ['inputs', 'histories'], 'all pairs of compatible systems, all factors, all points, all sequences of the operations including after an evaluation',
 'the operations edit stored functions and derived data in place; stale derivatives or shared functions need a particular sequence to show',
 ['core/src/system/system.cpp', H+'system/system.hpp'],
 [('sum and scaling', 'System::operator+= / operator*='), ('concatenation', 'Concatenate'), ('copies', 'Clone, copy constructor')], None, 'Eval and Jacobian of the result')
prop('P10', 'Total-degree start points are distinct roots of the start system',
 'The total-degree start system of a polynomial system has as many start points as the product of the degrees; every start point is a root of it, and different indices give different points.',
 ['inputs', 'configurations'], 'every square polynomial system, every index below the number of start points, homogenized and patched or not',
 'the index to root mapping must be a bijection for every combination of degrees',
 ['core/src/system/start/total_degree.cpp', H+'system/start/total_degree.hpp', H+'system/start/utility.hpp'],
 [('index to root', 'TotalDegree::GenerateStartPoint'), ('mixed-radix subscript', 'IndexToSubscript'), ('count', 'TotalDegree::NumStartPoints')], None, 'StartPoint(i), Eval')
prop('P11', 'Multihomogeneous start points are distinct roots and their number is the bound',
 'The multihomogeneous start system of a polynomial system in affine groups of variables has as many start points as the multihomogeneous Bezout number of the degree matrix; every start point is a root of it and different indices give different points.',
 ['inputs', 'configurations'], 'every square polynomial system, every partition of its variables into affine groups, every index',
 'the enumeration of valid partitions and their sizes depends on the whole degree matrix',
 ['core/src/system/start/mhom.cpp', H+'system/start/mhom.hpp'],
 [('degree matrix', 'MHomogeneous::CreateDegreeMatrix'), ('partitions', 'MHomogeneous::GenerateValidPartitions / ChooseColumnInRow'), ('index to root', 'MHomogeneous::GenerateStartPoint')], None, 'NumStartPoints, StartPoint(i)')
prop('P12', 'A patch is affine-linear per group and rescaling lands on it',
 'A patch evaluates, for each group of variables, to the product of its coefficients with that group minus one, its Jacobian holds exactly those coefficients in the columns of the group, and rescaling any point moves it along each group only and onto the patch. This holds at every working precision.',
 ['inputs', 'histories'], 'every partition of the coordinates into groups, every point not annihilated by the coefficients, every sequence of precision changes',
 'group offsets accumulate; an error appears only with several groups of different sizes',
 [H+'system/patch.hpp'],
 [('values', 'Patch::EvalInPlace'), ('Jacobian', 'Patch::JacobianInPlace'), ('rescaling', 'Patch::RescalePointToFitInPlace'), ('precision', 'Patch::Precision')], 'coefficients at highest and working precision', 'Eval, Jacobian, RescalePointToFit')
prop('P13', 'A linear slice evaluates its linear forms with matching Jacobian',
 'A slice evaluates to its coefficient matrix times the point plus its constants (no constants when homogeneous), and its Jacobian is that matrix, at every point and working precision.',
 ['inputs', 'histories'], 'every number of linear forms and variables, homogeneous or not, every point, every precision change',
 'dimension, homogeneity and precision combine freely; the existing tests of slices do not build',
 ['core/src/system/slice.cpp', H+'system/slice.hpp'],
 [('values', 'LinearSlice::Eval'), ('Jacobian', 'LinearSlice::Jacobian'), ('construction', 'LinearSlice::Make'), ('precision', 'LinearSlice::Precision')], None, 'Eval, Jacobian')
prop('P14', 'Newton correction succeeds only when the step met the tolerance',
 'A Newton correction reports success only after a full step whose length is below the requested tolerance, after at least the minimum and at most the maximum number of iterations; each iterate is the previous one minus the solution of the linearised system. Otherwise it reports a failure and never success.',
 ['inputs'], 'every system, start point, tolerance and pair of iteration limits',
 'success and failure depend on convergence behaviour at each iteration; tests run two or three well-behaved corrections',
 [H+'trackers/newton_corrector.hpp', H+'trackers/newton_correct.hpp'],
 [('iteration', 'NewtonCorrector::Correct'), ('one step', 'NewtonCorrector::EvalIterationStep')], None, 'success code, next point, norm of the step')
prop('P15', 'Each predictor has the order it claims',
 'Every prediction method advances the point by the Runge-Kutta formula of its table for the path differential equation, so its local error is of the claimed order in the step; its error estimate is the difference to the embedded method.',
 ['inputs', 'configurations'], 'every prediction method, every system, point, time and step',
 'a wrong coefficient or stage keeps tracking working with more steps, so tests that only look at success cannot see it',
 ['core/src/tracking/explicit_predictors.cpp', H+'trackers/explicit_predictors.hpp'],
 [('tables', 'ExplicitRKPredictor coefficients'), ('stages and combination', 'ExplicitRKPredictor::FullStep / EvalRHS'), ('order', 'predict::Order'), ('error estimate', 'SetErrorEstimate, SetSizeProportion')], None, 'predicted point, error estimate, order')
prop('P16', 'Adaptive-precision criteria are the published formulas and choices are safe',
 'The precision and step-size criteria of adaptive tracking are the published inequalities, and whenever a precision and step size are chosen by them, the chosen pair satisfies the criteria and is the cheapest of the candidates considered.',
 ['inputs'], 'all norms, tolerances, safety digits, precisions and step sizes',
 'a slightly wrong criterion still tracks easy paths; only ill-conditioned ones would lose digits',
 [H+'trackers/amp_criteria.hpp', H+'trackers/amp_tracker.hpp'],
 [('criteria A, B, C', 'amp::CriterionA / CriterionB / CriterionC'), ('minimisation', 'MinimizeTrackingCost'), ('cost', 'ArithmeticCost'), ('digits', 'MinDigitsForLogOfStepsize, MinDigitsForStepsizeInterval')], None, 'returned precision and step size')
prop('P17', 'Tracking reports success only at the end time with a point on the path',
 'Tracking a path reports success only when the tracker stands at the requested end time with a point that satisfies the homotopy there to the tracking tolerance, and otherwise reports the reason it stopped. The number of successful steps stays within its configured maximum, no step is tried with a size below the configured minimum or above the maximum, and with truncation on a path whose dehomogenized point exceeds the truncation threshold is reported as going to infinity.',
 ['inputs', 'histories', 'configurations'], 'every homotopy, start point, interval of times, tolerance, limits, predictor and precision model; repeated use of one tracker',
 'the step loop runs an unbounded number of iterations with a history-dependent step size; tests of this part do not build',
 [H+'trackers/base_tracker.hpp', H+'trackers/fixed_precision_tracker.hpp', H+'trackers/amp_tracker.hpp'],
 [('step loop', 'Tracker::TrackPath'), ('checks before a step', 'Tracker::PreIterationCheck'), ('step size control', 'OnStepSuccess / OnStepFail, Increment/decrease of the step size'), ('end point', 'CopyFinalSolution, PostTrackCleanup')], 'current time, point, step size, counters', 'TrackPath result')
prop('P18', 'Endgames converge to the limit of the path with its cycle number',
 'Interpolation through samples and derivatives reproduces any polynomial of the degree it determines, the average over closed loops is the limit of the path, and an endgame reports success only when two successive estimates agree within its tolerance; the estimate it returns is then the limit of the path. Samples are taken at times that approach the target by the configured sample factor. With security level zero an endgame stops as soon as two successive estimates exceed the configured norm.',
 ['inputs', 'configurations'], 'every number of samples, every polynomial of matching degree, every path with a limit, every cycle number up to the configured bound',
 'interpolation and loop averaging have index-sensitive loops; tests check fixed sample counts',
 [H+'endgames/interpolation.hpp', H+'endgames/powerseries.hpp', H+'endgames/cauchy.hpp', H+'endgames/base_endgame.hpp'],
 [('interpolation', 'HermiteInterpolateAndSolve'), ('power series', 'PowerSeriesEndgame::RunImpl'), ('loops', 'CauchyEndgame::CircleTrack / ComputeCauchyApproximationOfXAtT0'), ('samples', 'EndgameBase::ComputeInitialSamples')], 'sample times and points', 'FinalApproximation, success code, CycleNumber')
prop('P19', 'Solving follows every start point and detects crossed paths',
 'A zero-dimensional solve tracks every start point once and files its result and metadata under that start point, so that nonsingular isolated solutions are found with small residual. Two paths that meet before the endgame although they started apart are flagged for retracking; equal end points are counted with their multiplicity. Solving again with the same object gives results of the new solve only.',
 ['inputs', 'configurations'], 'every square polynomial system and start system; every set of path data at the boundary',
 'needs particular coincidences of path data; a full solve in a test has none',
 [H+'nag_algorithms/zero_dim_solve.hpp', H+'nag_algorithms/midpath_check.hpp'],
 [('crossing test', 'MidpathChecker::Check'), ('per-path bookkeeping', 'ZeroDim::TrackSinglePathBeforeEG / DuringEG'), ('multiplicities', 'ZeroDim::ComputeMultiplicities'), ('retracking', 'ZeroDim::EGBoundaryAction')], 'solution metadata', 'FinalSolutions, FinalSolutionMetadata')
prop('P20', 'Parsing a text gives the expression it denotes',
 'Parsing the text of a function or system yields expressions with the value that the usual rules of precedence and associativity give that text, for every text of the grammar.',
 ['inputs'], 'every text of the input grammar', 'the set of texts is infinite; tests parse a fixed list',
 [H+'io/parsing/function_rules.hpp', H+'io/parsing/system_rules.hpp'], [('grammar', 'FunctionParser')])
prop('P21', 'Saved objects load back equal',
 'Saving a system, slice, patch or expression and loading it back yields an object that evaluates to the same values.',
 ['inputs', 'histories'], 'every object, every archive kind', 'only a few objects are saved in tests',
 [H+'system/system.hpp', F+'node.cpp'], [('archives', 'serialize members')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(p)+'\n' for p in P))
