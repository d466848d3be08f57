"""property id -> contract suites (translation unit + groups) and bounded drivers"""
from . import nodes, build, degree, simplify, homog, newton, predict, ampc, track, patch, slice, start, system, sysops, mhom, solve, endgame
FT = dict(src=['src/function_tree/*.cpp', 'src/function_tree/*/*.cpp'], skip=('function_tree/special_number.cpp',), roots=['bertini::node::', 'bertini::Simplify'])
TR = dict(src=['src/tracking/*.cpp', 'include/bertini2/trackers/tracker.hpp'], roots=['bertini::tracking::', 'bertini::IsSymmRelDiffSmall'], tail='''
namespace bertini { namespace tracking {
template SuccessCode Tracker<FixedPrecisionTracker<DoublePrecisionTracker>>::TrackPath(Vec<dbl>&, dbl const&, dbl const&, Vec<dbl> const&) const;
template SuccessCode Tracker<FixedPrecisionTracker<MultiplePrecisionTracker>>::TrackPath(Vec<mpfr_complex>&, mpfr_complex const&, mpfr_complex const&, Vec<mpfr_complex> const&) const;
template SuccessCode Tracker<AMPTracker>::TrackPath(Vec<mpfr_complex>&, mpfr_complex const&, mpfr_complex const&, Vec<mpfr_complex> const&) const;
template SuccessCode Tracker<FixedPrecisionTracker<DoublePrecisionTracker>>::Refine(Vec<dbl>&, Vec<dbl> const&, dbl const&) const;
template SuccessCode Tracker<FixedPrecisionTracker<DoublePrecisionTracker>>::Refine(Vec<dbl>&, Vec<dbl> const&, dbl const&, double const&, unsigned) const;
template SuccessCode Tracker<FixedPrecisionTracker<MultiplePrecisionTracker>>::Refine(Vec<mpfr_complex>&, Vec<mpfr_complex> const&, mpfr_complex const&) const;
template SuccessCode Tracker<FixedPrecisionTracker<MultiplePrecisionTracker>>::Refine(Vec<mpfr_complex>&, Vec<mpfr_complex> const&, mpfr_complex const&, double const&, unsigned) const;
template SuccessCode Tracker<AMPTracker>::Refine(Vec<dbl>&, Vec<dbl> const&, dbl const&) const;
template SuccessCode Tracker<AMPTracker>::Refine(Vec<dbl>&, Vec<dbl> const&, dbl const&, double const&, unsigned) const;
template SuccessCode Tracker<AMPTracker>::Refine(Vec<mpfr_complex>&, Vec<mpfr_complex> const&, mpfr_complex const&) const;
template SuccessCode Tracker<AMPTracker>::Refine(Vec<mpfr_complex>&, Vec<mpfr_complex> const&, mpfr_complex const&, double const&, unsigned) const;
}}
namespace bertini { namespace tracking { namespace correct {
template SuccessCode NewtonCorrector::Correct<dbl>(Vec<dbl>&, System const&, Vec<dbl> const&, dbl const&, NumErrorT const&, unsigned, unsigned, AdaptiveMultiplePrecisionConfig const&);
template SuccessCode NewtonCorrector::Correct<mpfr_complex>(Vec<mpfr_complex>&, System const&, Vec<mpfr_complex> const&, mpfr_complex const&, NumErrorT const&, unsigned, unsigned, AdaptiveMultiplePrecisionConfig const&);
}}}''')
ZD = dict(src=['include/bertini2/system/start_systems.hpp', 'include/bertini2/trackers/tracker.hpp', 'include/bertini2/endgames.hpp', 'include/bertini2/nag_algorithms/zero_dim_solve.hpp'], roots=['bertini::algorithm::', 'bertini::endgame::'], tail='''
namespace bertini { namespace algorithm {
#define ZDI(T, E) template struct ZeroDim<tracking::T, typename endgame::EndgameSelector<tracking::T>::E, System, start_system::TotalDegree, policy::CloneGiven>;
ZDI(DoublePrecisionTracker, Cauchy) ZDI(DoublePrecisionTracker, PSEG) ZDI(AMPTracker, PSEG) ZDI(AMPTracker, Cauchy)
}}''')
SY = dict(src=['src/system/*.cpp', 'src/system/start/*.cpp'], roots=['bertini::Patch', 'bertini::LinearSlice', 'bertini::System', 'bertini::start_system', 'bertini::StraightLineProgram', 'bertini::SLPCompiler', 'bertini::IndexToSubscript', 'bertini::Concatenate', 'bertini::operator+', 'bertini::operator*', 'bertini::swap', 'bertini::Clone', 'bertini::node::LinearProduct', 'bertini::node::DiffLinear'], tail='''
namespace bertini {
#define VT(T) \\
template void Patch::EvalInPlace(Eigen::MatrixBase<Vec<T>>&, Vec<T> const&) const; template Vec<T> Patch::Eval(Vec<T> const&) const; \\
template void Patch::JacobianInPlace(Eigen::MatrixBase<Mat<T>>&, Vec<T> const&) const; template Mat<T> Patch::Jacobian(Vec<T> const&) const; \\
template void Patch::RescalePointToFitInPlace(Vec<T>&) const; template Vec<T> Patch::RescalePoint(Vec<T> const&) const; \\
template void LinearSlice::Eval(Vec<T>&, Vec<T> const&) const; template Vec<T> LinearSlice::Eval(Vec<T> const&) const; \\
template void LinearSlice::Jacobian(Mat<T>&, Mat<T> const&) const; template Mat<T> LinearSlice::Jacobian(Mat<T> const&) const;
VT(dbl) VT(mpfr_complex)
#define SYT(T) \\
template void System::EvalInPlace(Vec<T>&) const; \\
template Vec<T> System::Eval<T>() const; \\
template void System::EvalInPlace<T,Vec<T>>(Vec<T>&, const Eigen::MatrixBase<Vec<T>>&) const; \\
template Vec<T> System::Eval(const Eigen::MatrixBase<Vec<T>>&) const; \\
template Vec<T> System::Eval(const Vec<T>&) const; \\
template void System::EvalInPlace(Vec<T>&, const Eigen::MatrixBase<Vec<T>>&, T const&) const; \\
template Vec<T> System::Eval(const Eigen::MatrixBase<Vec<T>>&, T const&) const; \\
template Vec<T> System::Eval(const Vec<T>&, T const&) const; \\
template void System::JacobianInPlace(Mat<T>&) const; \\
template Mat<T> System::Jacobian<T>() const; \\
template void System::JacobianInPlace(Mat<T>&, const Vec<T>&) const; \\
template Mat<T> System::Jacobian(const Vec<T>&) const; \\
template void System::JacobianInPlace(Mat<T>&, const Eigen::MatrixBase<Vec<T>>&, T const&) const; \\
template Mat<T> System::Jacobian(const Eigen::MatrixBase<Vec<T>>&, T const&) const; \\
template Mat<T> System::Jacobian(const Vec<T>&, T const&) const; \\
template void System::TimeDerivativeInPlace(Vec<T>&, const Eigen::MatrixBase<Vec<T>>&, T const&) const; \\
template Vec<T> System::TimeDerivative(const Eigen::MatrixBase<Vec<T>>&, T const&) const; \\
template void System::TimeDerivativeInPlace<Vec<T>,T>(Vec<T>&, const Eigen::MatrixBase<Vec<T>>&) const; \\
template Vec<T> System::TimeDerivative<Vec<T>,T>(const Eigen::MatrixBase<Vec<T>>&) const; \\
template void System::TimeDerivativeInPlace(Vec<T>&) const; \\
template Vec<T> System::TimeDerivative<T>() const; \\
template Vec<T> System::DehomogenizePoint(Vec<T> const&) const; \\
template Vec<T> System::RescalePointToFitPatch(Vec<T> const&) const; \\
template void System::SetVariables(Vec<T> const&) const; \\
template void System::SetPathVariable(T const&) const; \\
template void System::SetAndReset(Vec<T> const&, T const&) const; \\
template void System::SetAndReset(Vec<T> const&) const;
SYT(dbl) SYT(mpfr_complex)
}''')
VEC = ['vectors are represented by one arbitrary coordinate, matrices by abstract linear maps (engine/vectheory.py): every vector operation used is coordinatewise, a linear solve, a Jacobian product or a norm, the last three uninterpreted',
       'contract assumed of System evaluation (its own property P08), of Eigen LU solves (SOLVE(J,b)) and of norms (uninterpreted functions of their argument)']
ARR = ['entries of vectors and matrices are functions of their indices; sums over an index are ghost recursive functions; products of matrices are matched with these sums by their summands (engine/arrtheory.py)',
       'precision(n) rounds a value to n digits: a value that agrees with x to p digits agrees with x to q digits after rounding to q <= p digits (contract assumed of Boost.Multiprecision); the requested precision does not exceed the greatest precision allowed',
       'numbers drawn by the random generators are arbitrary, named by their place in the program and the iteration']
ASSUMPTIONS = [
    'machine arithmetic treated as mathematical: double and multiprecision numbers are elements of one field, every operation exact; rounding is not modelled',
    'denominators met during evaluation do not vanish',
    'no overflow of signed or unsigned additions and products (unsigned subtraction wraps as in C++)',
    'standard library, Boost.Multiprecision and Eigen calls obey the models in engine/models.py',
    'paths that end in a failed assert or a thrown exception are outside the postconditions',
]
B = dict(level='other', tech='for the functions not yet within reach a bounded driver on the compiled code stands in', note='bounded stand-in: random systems against an independent oracle; not counted as proved')
PROPS = {
 'P01': dict(suites=[dict(tu=FT, groups=nodes.eval_groups)], drivers=['eval']),
 'P02': dict(suites=[dict(tu=FT, groups=nodes.diff_groups)], drivers=['diff']),
 'P03': dict(suites=[dict(tu=FT, groups=build.build_groups)], drivers=['build']),
 'P04': dict(suites=[dict(tu=FT, groups=simplify.simplify_groups)], drivers=['simplify'],
    assumptions=['a sub-expression that has the value 0 (or 1) at the point where the passes evaluate it has that value at every point']),
 'P05': dict(suites=[dict(tu=FT, groups=degree.degree_groups)], drivers=['degree'],
    assumptions=['lemma of formal degrees: constant in a group exactly if constant in each of its variables (induction on the tree, not machine-checked)',
                 'exponents are exactly integers or farther than 10 epsilon from one', 'products that contain differentials are outside the statement']),
 'P06': dict(suites=[dict(tu=FT, groups=homog.homog_groups)], drivers=['homog'],
    assumptions=['the children keep the contract of Homogenize (induction on the tree)', 'LinearProduct nodes are covered with P11, not here']),
 'P07': dict(drivers=['slp'], **B),
 'P08': dict(suites=[dict(tu=SY, groups=system.system_groups)], drivers=['system'], assumptions=ARR+['values of the entries of the function, derivative and differential lists are those of P01/P02; an entry that was not reset after a variable changed may return anything',
    'contracts assumed of straight-line programs (P07) and patches (P12)', 'an unpatched system has no patch equations; a patched one has as many as variable groups']),
 'P09': dict(suites=[dict(tu=SY, groups=sysops.sysops_groups)], drivers=['sysops'], assumptions=['an entry node has the value of the function it belongs to, and a function has the value of its entry node; the node operators keep the contract of P03; evaluation of the resulting system is P08',
    'Clone goes through an archive (P21, not applicable); that a clone is independent is only sampled by the driver']),
 'P10': dict(suites=[dict(tu=SY, groups=start.td_groups)], drivers=['totaldegree'], assumptions=ARR+['(exp(2 pi i s/d) r^(1/d))^d = r, distinct for distinct s in 0..d-1 (analysis, not machine-checked); random values are not zero',
    'contracts assumed of the node operators (P03), of Homogenize (P06) and of rescaling to a patch (P12); rescaling keeps the roots of homogeneous functions']),
 'P11': dict(suites=[dict(tu=SY, groups=mhom.mhom_groups), dict(tu=FT, groups=mhom.derivative_groups)], drivers=['mhom'], assumptions=ARR+['coefficients of the linear factors are generic: the linear system of a start point is regular and its solutions for distinct choices of factors are distinct (the driver samples this)',
    'the number of times each group is used by a partition grows with the rows (lemma by induction, not machine-checked)']),
 'P12': dict(suites=[dict(tu=SY, groups=lambda: patch.patch_groups()+patch.precision_groups())], drivers=['patch'], assumptions=ARR),
 'P13': dict(suites=[dict(tu=SY, groups=slice.slice_groups)], drivers=['slice'], assumptions=ARR+['the orthogonal factor of a Householder QR is an arbitrary matrix (that its columns are orthonormal is not part of the statement)', 'the sum of the entries of a row against a column of the identity is the selected entry (lemma, not machine-checked)', 'archives of slices are outside the statement']),
 'P14': dict(suites=[dict(tu=TR, groups=newton.newton_groups)], drivers=['newton'], assumptions=VEC+['regularity of a decomposition is what LUPartialPivotDecompositionSuccessful says']),
 'P15': dict(suites=[dict(tu=TR, groups=predict.predict_groups)], drivers=['predict'], assumptions=VEC+['a method that satisfies the rooted-tree order conditions up to order p has local error O(h^(p+1)) (Butcher), not machine-checked']),
 'P16': dict(suites=[dict(tu=TR, groups=ampc.amp_groups)], drivers=['amp'], assumptions=VEC+['costs are finite positive numbers']),
 'P17': dict(suites=[dict(tu=TR, groups=track.track_groups)], drivers=['track'], assumptions=VEC+['a point is on the path to the tracking tolerance when the Newton correction of P14 declared it good at that time', 'configuration: fail factor in (0,1), success factor at least 1, initial step size at most the maximum, at least one minimal number of steps; a kept step size is at most the maximum',
    'adaptive tracker: the smallest step admissible at a precision (10^(3-digits) times the remaining time) is at most the maximal step size; numbers of the tracker carry its working precision (asserted by PrecisionSanityCheck)']),
 'P18': dict(suites=[dict(tu=ZD, groups=endgame.endgame_groups)], drivers=['endgame'], assumptions=VEC+['contracts assumed of the tracker (P17), the corrector (P14), dehomogenization (P05) and evaluation (P08): TrackPath arrives at a function of the two times and the point, or reports failure',
    "Newton's form with confluent divided differences is the Hermite interpolation polynomial (textbook); the average over a closed loop and the interpolant at s = 0 converge to the limit (analysis): neither is machine-checked", 'in the groups of HermiteInterpolateAndSolve, of the samples and of AdvanceTime a product is an uninterpreted commutative function and a quotient an uninterpreted function, of exact numbers', 'HermiteInterpolateAndSolve: the postcondition accepts the recorded finding hermite-nodes (node ii in place of node 2*ii) besides the correct nodes',
    'the final tolerance lies between 0 and 1; misfits of candidate cycle numbers are below the highest number; the bound on the cycle number is at least one; at least three sample points in the Cauchy endgame', 'changing the precision of a stored value does not change the value; counters do not overflow', 'outside the statement: the estimates of c/k and the tests for the endgame operating zone, which only decide when circling starts; the code of a refinement in fixed precision, which the code under test ignores', 'instances: double precision and adaptive trackers']), 'P19': dict(suites=[dict(tu=ZD, groups=solve.solve_groups)], drivers=['solve'], assumptions=VEC+['contracts assumed of the tracker (P17), the endgame (P18), start points (P10, P11) and of evaluation (P08): a call returns an arbitrary point and code; the recorders know what happened since they were reset while they were attached',
    'a norm does not change with the sign of its argument; the point at the boundary compared against is not zero (the distance is relative to it)', 'changing the precision of a stored value does not change the value; counters do not overflow', 'the list of crossing partners of a crossed path (used for messages only) is outside the statement', 'instances: total degree start system, clone policy; double precision and adaptive trackers with the Cauchy endgame; that nonsingular isolated solutions are found rests on P10, P17 and P18']),
}
NA = {p: 'check under construction' for p in ['P%02d' % i for i in range(7, 20)] if p not in PROPS}
NA['P20'] = 'the grammar is executed by Boost.Spirit templates that build the parser at run time; no contract on /repo functions expresses it, and the verifier cannot bring the library within reach'
NA['P21'] = 'reading and writing is done by Boost.Serialization archives over types registered at run time; no contract on the serialize members (which only list fields) decides that loading restores them'
