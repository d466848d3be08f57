"""P17: the loop that follows a path.  The points a tracker accepts are those its corrector declared good (P14)."""
import z3
from engine.symex import *
from engine.verify import Group
from engine.nodetheory import Rec
from engine.vectheory import *
from engine import models as MD
from .nodes import find1, method
from .newton import code
from . import ampc
TR = 'bertini::tracking::'
CORR = z3.Function('corrected', Real, Real, Real, BoolS)     # (x,t,tol): x is a Newton iterate at time t whose last step was shorter than tol
SMALL = z3.Function('times_agree', Real, Real, BoolS)
DEHOM = z3.Function('dehomogenized', Real, Real)
ABS = lambda x: MD.uf('abs')(R(x))
def havoc_refs(eng, f, cells):
    for t, c in zip(f['pt'], cells):
        if t.rstrip().endswith('&') and not t.startswith('const ') and c.get() is not None and not isinstance(c.get(), (Obj, Ptr)):
            v = c.get(); c.set(vec(eng.fresh('out', Real), v.rows) if isinstance(v, Mat) else eng.havoc_value(v, 'out'))
def the_system(eng, cells):
    return [i for i, c in enumerate(cells) if isinstance(c.get(), Obj) and c.get().cls == 'bertini::System'][0]
def predict_c(eng, f, this, e):
    a = [eng.lv(x) for x in e['args']]; i = the_system(eng, a)
    th = eng.theory; th.predicted = (val(a[i+1].get()), R(a[i+2].get()), R(a[i+3].get()))
    havoc_refs(eng, f, a); th.pred_result = val(a[0].get())
    r = eng.fresh('predictor_code', Int); eng.fact(z3.And(r >= -1, r <= 15)); return r
def correct_c(eng, f, this, e):
    a = [eng.lv(x) for x in e['args']]; i = the_system(eng, a)
    x, t, tol = val(a[i+1].get()), R(a[i+2].get()), R(a[i+3].get()); mn, mx = toz(a[i+4].get(), Int), toz(a[i+5].get(), Int)
    L = a[i+1].get().rows; havoc_refs(eng, f, a); a[0].get().rows = L; y = val(a[0].get())
    r = eng.fresh('corrector_code', Int); eng.fact(z3.Or(*[r == code(eng, n) for n in ('Success', 'FailedToConverge', 'MatrixSolveFailure', 'HigherPrecisionNecessary')])); eng.fact(z3.Implies(r == code(eng, 'Success'), CORR(y, t, tol)))
    eng.theory.corrections.append((x, t, tol, mn, mx, r, y)); return r
def setup(eng):
    ampc.setup(eng); install_system(eng)
    C = eng.contract_calls
    C['bertini::Observable::NotifyObservers'] = lambda eng, f, this, e: None
    C[TR+'predict::ExplicitRKPredictor::Predict'] = predict_c
    C[TR+'correct::NewtonCorrector::Correct'] = correct_c
    C['bertini::IsSymmRelDiffSmall'] = lambda eng, f, this, e: SMALL(R(eng.rv(e['args'][0])), R(eng.rv(e['args'][1])))
    C['bertini::System::DehomogenizePoint'] = lambda eng, f, this, e: vec(DEHOM(val(eng.rv(e['args'][0]))), z3.Int('dehom_dim'))
    C['bertini::System::precision'] = lambda eng, f, this, e: None if e['args'] else eng.fresh('system_precision', Int)
    for c in ('predict::ExplicitRKPredictor', 'correct::NewtonCorrector'):
        C[TR+c+'::ChangePrecision'] = lambda eng, f, this, e: None
    C[TR+'predict::ExplicitRKPredictor::precision'] = lambda eng, f, this, e: eng.fresh('predictor_precision', Int)
    C[TR+'predict::ExplicitRKPredictor::HasErrorEstimate'] = lambda eng, f, this, e: eng.fresh('has_estimate', BoolS)
    fr = 'bertini::NumTraits<boost::multiprecision::number<boost::multiprecision::backends::mpfr_float_backend<0, allocate_dynamic>>>::FromRational'
    C[fr] = lambda eng, f, this, e: eng.rv(e['args'][0])
class TT(VecTheory):
    def reset(s, eng):
        super().reset(eng); s.corrections = []; s.predicted = None; s.invs = None; s.sources = lambda: []
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        if s.invs: out += [('inv:'+n, c) for n, c in s.invs()]
        for n, t in q:
            if n[0] == 'v':
                for i, x in enumerate(s.sources()): out.append((n+'=src%d' % i, z3.Implies(z3.And(I0 >= 0, I0 < k), t == x)))
        return out
KINDS = [('double', TR+'DoublePrecisionTracker', 'std::complex<double>'), ('multiple', TR+'MultiplePrecisionTracker', 'mpc_complex')]
class St:
    """access to the state of a tracker object"""
    def __init__(s, eng, cls):
        s.eng = eng; s.o = Obj(eng, cls); s.cls = cls
        s.o.f['tracked_system_'] = Cell(eng, Obj(eng, 'bertini::System'), 'tracked_system_')
    def g(s, n): return s.o.cell(n).get()
    def r(s, n): return R(s.g(n))
    def i(s, n): return toz(s.g(n), Int)
    def cfg(s, cls, n):
        t = s.o.cell('configuration_').get()
        for tt, c in zip(t.types, t.cells):
            if strip_t(tt) == TR+cls: return c.get().cell(n).get()
        raise Unsupported('configuration '+cls)
    def vec(s, field, cp=None):
        t = s.g(field)
        for tt, c in zip(t.types, t.cells):
            if cp is None or cp in tt: return c
        raise Unsupported(field)
def assume_config(eng, T):
    S = lambda n: R(T.cfg('SteppingConfig', n))
    eng.assume(z3.And(S('step_size_fail_factor') > 0, S('step_size_fail_factor') < 1, S('initial_step_size') > 0, S('initial_step_size') <= S('max_step_size'), S('min_num_steps') >= 1, S('step_size_success_factor') >= 1))
    eng.assume(R(T.g('tracking_tolerance_')) > 0); eng.assume(z3.And(I0 >= 0, I0 < z3.Int('dim')))
def steps(eng, T, cur):
    """obligations about every step tried: judged where the step is predicted"""
    S = lambda n: R(T.cfg('SteppingConfig', n))
    x, t, dt = eng.theory.predicted
    h, e = eng.theory.before['h'], eng.theory.before['end']; d = e - t
    eng.prove('a step starts from the current point and time', z3.And(x == eng.theory.before['x'], t == eng.theory.before['t']))
    eng.prove('no step is tried with a size below the minimum', h >= S('min_step_size'))
    eng.prove('no step is tried with a size above the maximum', h <= S('max_step_size'))
    eng.prove('the step goes towards the end time, by the step size or up to the end', z3.Or(dt == h*d/ABS(d), z3.And(dt == d, ABS(t-e) < z3.If(h >= 0, h, -h)), z3.And(dt == d, ABS(d) < z3.If(h >= 0, h, -h))))
def fixed_groups():
    out = []
    for nm, cls, cp in KINDS:
        base = TR+'Tracker<'+TR+'FixedPrecisionTracker<'+cls+'>>'
        def run(eng, cls=cls, base=base, cp=cp, nm=nm):
            th = eng.theory; T = St(eng, cls); assume_config(eng, T)
            S = lambda n: T.cfg('SteppingConfig', n)
            dim = z3.Int('dim'); x0, t0, t1 = eng.fresh('x0', Real), eng.fresh('t0', Real), eng.fresh('t1', Real)
            for n in ('current_space_', 'tentative_space_', 'temporary_space_', 'current_time_', 'endtime_', 'delta_t_', 'current_stepsize_', 'next_stepsize_', 'step_success_code_', 'num_successful_steps_taken_'): T.o.cell(n)
            for c, n in (('SteppingConfig','min_step_size'), ('NewtonConfig','min_num_newton_iterations'), ('NewtonConfig','max_num_newton_iterations')): T.cfg(c, n)
            for n in ('predictor_', 'corrector_', 'condition_number_estimate_', 'path_truncation_threshold_', 'tracking_tolerance_'): T.o.cell(n)
            reinit = T.g('reinitialize_stepsize_'); eng.assume(z3.Or(reinit, z3.And(T.r('current_stepsize_') <= R(S('max_step_size')))))
            tol = T.r('tracking_tolerance_'); trunc = T.g('infinite_path_truncation_')
            cx = lambda: val(T.vec('current_space_', cp).get()); ct = lambda: T.r('current_time_')
            on = lambda x, t: z3.Or(z3.And(x == x0, t == t0), CORR(x, t, tol))
            eng.fact(z3.ForAll([z3.Real('q')], ABS(z3.Real('q')) >= 0)) if False else None
            eng.fact(ABS(t0-t1) >= 0)
            th.invs = lambda: [('on path', on(cx(), ct())), ('end', T.r('endtime_') == t1), ('h<=max', T.r('current_stepsize_') <= R(S('max_step_size'))), ('h>=0', T.r('current_stepsize_') >= 0),
                               ('n<=max', z3.And(T.i('num_successful_steps_taken_') >= 0, T.i('num_successful_steps_taken_') <= toz(S('max_num_steps'), Int))),
                               ('n=0', z3.Implies(T.i('num_successful_steps_taken_') == 0, z3.And(cx() == x0, ct() == t0)))]
            th.sources = lambda: [cx()]
            snap = predict_c
            def pre(eng, f, this, e):
                th.before = dict(h=T.r('current_stepsize_'), end=T.r('endtime_'), x=cx(), t=ct(), n=T.i('num_successful_steps_taken_'))
                r = predict_c(eng, f, this, e); steps(eng, T, cx); return r
            eng.contract_calls[TR+'predict::ExplicitRKPredictor::Predict'] = pre
            th.before = None
            sol = Cell(eng, vec(eng.fresh('old_solution', Real), eng.fresh('old_dim', Int)), 'solution')
            f = find1(eng.db, base+'::TrackPath')
            try: r = toz(eng.call_fn(f, T.o, [sol, Cell(eng, t0), Cell(eng, t1), Cell(eng, vec(x0, dim))]), Int)
            except ThrowEx: return
            K = {n: code(eng, n) for n in ('Success', 'MaxNumStepsTaken', 'MinStepSizeReached', 'GoingToInfinity')}
            th.invs = None
            n = T.i('num_successful_steps_taken_')
            eng.prove('the successful steps stay within their maximum', n <= toz(S('max_num_steps'), Int))
            eng.prove('success only at the requested end time', z3.Implies(r == K['Success'], SMALL(ct(), t1)))
            eng.prove('success only with a corrected point (or the start point at the start time)', z3.Implies(r == K['Success'], on(val(sol.get()), ct())))
            eng.prove('the solution has the length of the system', z3.Implies(r == K['Success'], toz(sol.get().rows, Int) == dim))
            eng.prove('the other results name their reason', z3.Or(r == K['Success'], z3.And(r == K['MaxNumStepsTaken'], n >= toz(S('max_num_steps'), Int)), z3.And(r == K['MinStepSizeReached'], T.r('current_stepsize_') < R(S('min_step_size'))),
                      z3.And(r == K['GoingToInfinity'], trunc, NORM2(DEHOM(cx())) > T.r('path_truncation_threshold_'))))
            if th.before is not None and th.predicted is not None and th.corrections:
                pass
        def run_iter(eng, cls=cls, cp=cp):
            th = eng.theory; T = St(eng, cls); assume_config(eng, T)
            f = method(eng.db, cls, 'TrackerIteration'); tol = T.r('tracking_tolerance_')
            x = val(T.vec('current_space_', cp).get()); t, dt, h, end = (T.r(n) for n in ('current_time_', 'delta_t_', 'current_stepsize_', 'endtime_'))
            r = toz(eng.call_fn(f, T.o, []), Int); ok = code(eng, 'Success'); y = val(T.vec('current_space_', cp).get())
            eng.prove('an iteration moves neither the time nor the end time', z3.And(T.r('current_time_') == t, T.r('endtime_') == end, T.r('delta_t_') == dt))
            eng.prove('success: the new point is corrected at the next time', z3.Implies(r == ok, CORR(y, t+dt, tol)))
            eng.prove('failure: the point is kept', z3.Implies(r != ok, y == x))
            eng.prove('failure: the step size shrinks by the fail factor', z3.Implies(z3.And(r != ok, r != code(eng, 'GoingToInfinity')), T.r('current_stepsize_') == h*R(T.cfg('SteppingConfig', 'step_size_fail_factor'))))
            eng.prove('success: the step size is kept', z3.Implies(r == ok, T.r('current_stepsize_') == h))
            for c in th.corrections:
                eng.prove('the predicted point is corrected', c[0] == th.pred_result); eng.prove('correction to the tracking tolerance within the configured iterations', z3.And(c[2] == tol, c[3] == toz(T.cfg('NewtonConfig', 'min_num_newton_iterations'), Int), c[4] == toz(T.cfg('NewtonConfig', 'max_num_newton_iterations'), Int)))
            eng.prove('the step is predicted from the current point', z3.And(th.predicted[0] == x, th.predicted[1] == t, th.predicted[2] == dt))
        FN = [base+'::TrackPath', cls+'::TrackerLoopInitialization'] + [TR+'FixedPrecisionTracker::'+x for x in ('PreIterationCheck', 'OnStepSuccess', 'OnStepFail', 'CheckGoingToInfinity', 'CopyFinalSolution', 'ResetCounters', 'PostTrackCleanup')]
        out.append(Group('TrackPath '+nm, FN, run, TT, setup=setup))
        out.append(Group('TrackerIteration '+nm, [TR+'FixedPrecisionTracker::TrackerIteration', TR+'FixedPrecisionTracker::Predict', TR+'FixedPrecisionTracker::Correct', TR+'FixedPrecisionTracker::UpdateStepsize'], run_iter, TT, setup=setup))
    return out
def small_groups():
    out = []
    for nm, cls, cp in KINDS:
        def run(eng, cp=cp):
            f = find1(eng.db, 'bertini::IsSymmRelDiffSmall', lambda f: cp in str(f.get('targs')))
            a, b, e = (eng.fresh(n, Real) for n in 'abe')
            r = toz(eng.call_fn(f, None, [Cell(eng, x) for x in (a, b, e)]), BoolS)
            d = ABS(a-b)
            eng.prove('times agree: equal, or their difference is small relative to one of them', r == z3.Or(a == b, d/ABS(a) <= e, d/ABS(b) <= e))
        out.append(Group('IsSymmRelDiffSmall '+nm, ['bertini::IsSymmRelDiffSmall'], run, TT, setup=ampc.setup))
    return out
# ------------------------------------------------------------------ adaptive precision
AMP = TR+'AMPTracker'; DBLC, MPC = 'std::complex<double>', 'mpc_complex'
class AT(St):
    """the point of an adaptive tracker is in the container its working precision selects"""
    def __init__(s, eng):
        St.__init__(s, eng, AMP); eng.T = eng.trk = s; s.calls = []
        for n in ('current_space_', 'tentative_space_', 'temporary_space_', 'current_time_', 'endtime_', 'endtime_highest_precision_', 'delta_t_', 'current_stepsize_', 'next_stepsize_', 'current_precision_', 'next_precision_', 'tracking_tolerance_',
                  'num_successful_steps_taken_', 'step_success_code_', 'predictor_', 'corrector_', 'num_consecutive_failed_steps_'): s.o.cell(n)
        cp = s.i('current_precision_'); eng.assume(z3.And(cp >= 16, z3.Or(cp == 16, cp >= 20), cp <= 10**6, s.i('num_consecutive_failed_steps_') <= 10**6))
        # the container in use has the length of the system (established by TrackerLoopInitialization)
        for k in (DBLC, MPC):
            for n in ('current_space_', 'temporary_space_', 'tentative_space_'): s.vec(n, k).set(vec(eng.fresh(n+k[:3], Real)))
    def dbl(s): return s.i('current_precision_') == 16
    def cur(s, field='current_space_'):
        return z3.If(s.dbl(), val(s.vec(field, DBLC).get()), val(s.vec(field, MPC).get()))
    def length(s): return z3.If(s.dbl(), toz(s.vec('current_space_', DBLC).get().rows, Int), toz(s.vec('current_space_', MPC).get().rows, Int))
    def keep(s): return [s.r('current_time_'), s.r('delta_t_'), s.r('current_stepsize_'), s.i('num_successful_steps_taken_'), s.r('tracking_tolerance_')]
    def end(s): return s.r('endtime_')
def amp_setup(eng):
    setup(eng); ampc.trk_setup(eng); C = eng.contract_calls
    del C[AMP+'::UpdatePrecisionAndStepsize']
    MINS = z3.Function('minstep', Int, Real)
    def minstep(eng, f, this, e):
        r = MINS(toz(eng.rv(e['args'][0]), Int)); eng.fact(r <= R(eng.T.cfg('SteppingConfig', 'max_step_size'))); return r
    C[TR+'MinStepSizeForPrecision'] = minstep
    C[TR+'MinDigitsForStepsizeInterval'] = lambda eng, f, this, e: eng.sym_value('unsigned int', 'interval_digits')
    for n in ('DigitsB', 'DigitsC', 'MinRequiredPrecision_BCTol'): C[AMP+'::'+n] = lambda eng, f, this, e: eng.sym_value('unsigned int', 'digits')
    C[AMP+'::PrecisionSanityCheck'] = lambda eng, f, this, e: True
    def prec(eng, f, this, e):
        if len(e['args']) > 1:
            for a in e['args']: eng.lv(a)
            return None
        c = eng.lv(e['args'][0])
        if c is eng.T.o.cell('current_time_'): return eng.T.g('current_precision_')
        if 'std::complex<double>' in f['pt'][0]: return 16
        r = eng.fresh('precision_of', Int); eng.fact(z3.And(r >= 16, z3.Or(r == 16, r >= 20))); return r
    C['bertini::Precision'] = prec
def change_c(on):
    """contract of ChangePrecision"""
    def c(eng, f, this, e):
        T = eng.T; t = str(f.get('targs'))
        if ('upsample_refine_on' in t) != on: return NotImplemented
        x, L, p0, p = T.cur(), T.length(), T.i('current_precision_'), toz(eng.rv(e['args'][0]), Int)
        for n in ('previous_precision_', 'num_steps_since_last_condition_number_computation_', 'current_precision_'): T.o.cell(n).set(eng.sym_value('unsigned int', n))
        eng.fact(T.i('current_precision_') == p)
        end0 = T.r('endtime_'); T.o.cell('endtime_').set(eng.fresh('endtime', Real)); eng.fact(z3.Or(T.r('endtime_') == end0, T.r('endtime_') == T.r('endtime_highest_precision_')))
        for k in (DBLC, MPC):
            for n in ('current_space_', 'temporary_space_', 'tentative_space_'): T.vec(n, k).set(vec(eng.fresh(n+k[:3], Real), eng.fresh('len', Int)))
        eng.fact(T.length() == L)
        if not on: eng.fact(T.cur() == x); return z3.IntVal(code(eng, 'Success'))
        r = eng.fresh('code', Int); eng.fact(z3.And(r >= -1, r <= 15))
        eng.fact(z3.If(p <= p0, z3.And(r == code(eng, 'Success'), T.cur() == x), z3.Or(z3.And(r == code(eng, 'Success'), CORR(T.cur(), T.r('current_time_'), T.r('tracking_tolerance_'))), z3.And(r != code(eng, 'Success'), T.cur() == x))))
        return r
    return c
def refine_stored_c(eng, f, this, e):
    T = eng.T; x, L = T.cur(), T.length(); ok = code(eng, 'Success')
    for k in (DBLC, MPC):
        for n in ('current_space_', 'temporary_space_'): T.vec(n, k).set(vec(eng.fresh(n+k[:3], Real), eng.fresh('len', Int)))
    r = eng.fresh('code', Int); eng.fact(z3.And(r >= -1, r <= 15)); eng.fact(T.length() == L)
    eng.fact(z3.If(r == ok, CORR(T.cur(), T.r('current_time_'), T.r('tracking_tolerance_')), T.cur() == x)); return r
def both(*cs):
    def c(*a):
        for x in cs:
            r = x(*a)
            if r is not NotImplemented: return r
        return NotImplemented
    return c
def with_(**kw):
    def su(eng):
        amp_setup(eng)
        for n, c in kw.items(): eng.contract_calls[AMP+'::'+n] = c
    return su
def proved_keep(eng, T, k0, e0):
    for n, a, b in zip(('time', 'next step', 'step size', 'number of steps', 'tolerance'), T.keep(), k0): eng.prove('the '+n+' is kept', a == b)
    eng.prove('the end time is kept', z3.Or(T.end() == e0, T.end() == T.r('endtime_highest_precision_')))
def amp_groups():
    out = []; ok = lambda eng: code(eng, 'Success')
    tgt = lambda n: (lambda f: n in str(f.get('targs')))
    def run_change(eng, on=False):
        T = AT(eng); assume_config(eng, T); th = eng.theory; p0 = T.i('current_precision_')
        th.sources = lambda: [val(T.vec('current_space_', k).get()) for k in (DBLC, MPC)]
        x, k0, e0, p = T.cur(), T.keep(), T.end(), eng.sym_value('unsigned int', 'new_precision')
        eng.assume(z3.And(p >= 16, z3.Or(p == 16, p >= 20)))
        r = toz(eng.call_fn(find1(eng.db, AMP+'::ChangePrecision', tgt('upsample_refine_on' if on else 'upsample_refine_off')), T.o, [Cell(eng, p)]), Int)
        eng.prove('the working precision is the new one', T.i('current_precision_') == p)
        eng.prove('the length of the point is kept', T.length() == z3.Int('dim'))
        proved_keep(eng, T, k0, e0)
        if not on: eng.prove('the point is kept', T.cur() == x); eng.prove('success', r == ok(eng))
        else: eng.prove('the point is kept, or corrected when the precision rises', z3.If(p <= p0, z3.And(r == ok(eng), T.cur() == x), z3.Or(z3.And(r == ok(eng), CORR(T.cur(), T.r('current_time_'), T.r('tracking_tolerance_'))), z3.And(r != ok(eng), T.cur() == x))))
    CHP = [AMP+'::'+n for n in ('ChangePrecision', 'MultipleToDouble', 'DoubleToMultiple', 'MultipleToMultiple', 'AdjustCurrentPrecision', 'CopyToCurrentSpace', 'AdjustInternalsPrecision', 'AdjustTemporariesPrecision')]
    out.append(Group('ChangePrecision', CHP, run_change, TT, setup=amp_setup))
    out.append(Group('ChangePrecision with refinement', CHP, lambda eng: run_change(eng, True), TT, setup=with_(RefineStoredPoint=refine_stored_c)))
    def run_stored(eng):
        T = AT(eng); assume_config(eng, T); x, k0, e0, p0 = T.cur(), T.keep(), T.end(), T.i('current_precision_')
        r = toz(eng.call_fn(find1(eng.db, AMP+'::RefineStoredPoint'), T.o, []), Int)
        eng.prove('the working precision is kept', T.i('current_precision_') == p0); proved_keep(eng, T, k0, e0); eng.prove('the length of the point is kept', T.length() == z3.Int('dim'))
        eng.prove('success: the point is corrected at the current time; otherwise it is kept', z3.If(r == ok(eng), CORR(T.cur(), T.r('current_time_'), T.r('tracking_tolerance_')), T.cur() == x))
    out.append(Group('RefineStoredPoint', [AMP+'::RefineStoredPoint', AMP+'::RefineImpl'], run_stored, TT, setup=with_(ChangePrecision=change_c(False))))
    def run_first(eng):
        T = AT(eng); assume_config(eng, T); th = eng.theory; k0, e0 = T.keep(), T.end(); dim = z3.Int('dim'); T.cfg('AdaptiveMultiplePrecisionConfig', 'maximum_precision')
        eng.assume(T.end() == T.r('endtime_highest_precision_'))
        th.invs = lambda: [('len', T.length() == dim), ('end', T.r('endtime_') == T.r('endtime_highest_precision_')), ('p', z3.Or(T.dbl(), T.i('current_precision_') >= 20))]
        r = toz(eng.call_fn(find1(eng.db, AMP+'::InitialRefinement'), T.o, []), Int); th.invs = None
        proved_keep(eng, T, k0, e0)
        eng.prove('success: the start point is corrected at the start time', z3.Implies(r == ok(eng), CORR(T.cur(), T.r('current_time_'), T.r('tracking_tolerance_'))))
        eng.prove('otherwise the start point is singular', z3.Or(r == ok(eng), r == code(eng, 'SingularStartPoint')))
        eng.prove('the point has the length of the system', T.length() == dim)
    out.append(Group('InitialRefinement', [AMP+'::InitialRefinement'], run_first, TT, setup=with_(ChangePrecision=both(change_c(False), change_c(True)), RefineStoredPoint=refine_stored_c)))
    def first_c(eng, f, this, e):
        T = eng.T; L = T.length(); ok_ = ok(eng)
        for n in ('previous_precision_', 'num_steps_since_last_condition_number_computation_', 'current_precision_'): T.o.cell(n).set(eng.sym_value('unsigned int', n))
        end0 = T.r('endtime_'); T.o.cell('endtime_').set(eng.fresh('endtime', Real)); eng.fact(z3.Or(T.r('endtime_') == end0, T.r('endtime_') == T.r('endtime_highest_precision_')))
        for k in (DBLC, MPC):
            for n in ('current_space_', 'temporary_space_', 'tentative_space_'): T.vec(n, k).set(vec(eng.fresh(n+k[:3], Real), eng.fresh('len', Int)))
        r = eng.fresh('code', Int); eng.fact(T.length() == L)
        eng.fact(z3.Or(z3.And(r == ok_, CORR(T.cur(), T.r('current_time_'), T.r('tracking_tolerance_'))), r == code(eng, 'SingularStartPoint'))); return r
    def run_init(eng):
        T = AT(eng); assume_config(eng, T); th = eng.theory; S = lambda n: R(T.cfg('SteppingConfig', n))
        x0, t0, t1 = (eng.fresh(n, Real) for n in ('x0', 't0', 't1')); dim = z3.Int('dim')
        for k in (DBLC, MPC):
            for n in ('current_space_', 'temporary_space_', 'tentative_space_'): T.vec(n, k).set(vec(eng.fresh(n+k[:3], Real), eng.fresh('len', Int)))
        eng.assume(z3.Or(T.g('reinitialize_stepsize_'), T.r('current_stepsize_') <= S('max_step_size')))
        sp = Cell(eng, vec(x0)); th.sources = lambda: [x0]
        th.invs = lambda: [('len', T.length() == dim), ('time', T.r('current_time_') == t0), ('end', z3.And(T.r('endtime_') == t1, T.r('endtime_highest_precision_') == t1)), ('p', z3.Or(T.dbl(), T.i('current_precision_') >= 20))]
        r = toz(eng.call_fn(find1(eng.db, AMP+'::TrackerLoopInitialization'), T.o, [Cell(eng, t0), Cell(eng, t1), sp]), Int)
        th.invs = None
        eng.prove('tracking starts at the start time and ends at the end time', z3.And(T.r('current_time_') == t0, T.end() == t1, T.r('endtime_highest_precision_') == t1))
        eng.prove('success: the start point is corrected at the start time', z3.Implies(r == ok(eng), CORR(T.cur(), t0, T.r('tracking_tolerance_'))))
        eng.prove('otherwise the start point is singular', z3.Or(r == ok(eng), r == code(eng, 'SingularStartPoint')))
        eng.prove('the point has the length of the system', T.length() == dim)
        eng.prove('no step was taken', T.i('num_successful_steps_taken_') == 0)
        eng.prove('the step size is at most the maximum', T.r('current_stepsize_') <= S('max_step_size'))
        eng.prove('the step size is the initial one unless it is kept', z3.Or(z3.Not(T.g('reinitialize_stepsize_')), T.r('current_stepsize_') == S('initial_step_size'), T.r('current_stepsize_') == ABS(t0-t1)/toz(T.cfg('SteppingConfig', 'min_num_steps'), Real)))
    out.append(Group('TrackerLoopInitialization AMP', [AMP+'::TrackerLoopInitialization', AMP+'::ResetCounters', AMP+'::MultipleToDouble', AMP+'::MultipleToMultiple'], run_init, TT,
        setup=with_(ChangePrecision=change_c(False), InitialRefinement=first_c)))
    for nm, cp in (('double', DBLC), ('multiple', MPC)):
        def run_iter(eng, cp=cp):
            T = AT(eng); assume_config(eng, T); th = eng.theory; S = lambda n: R(T.cfg('SteppingConfig', n))
            eng.assume(T.dbl() if cp == DBLC else z3.Not(T.dbl())); eng.assume(z3.And(T.r('current_stepsize_') <= S('max_step_size'), T.r('current_stepsize_') > 0)); eng.assume(T.end() == T.r('endtime_highest_precision_'))
            x, e0, (t, dt, h, n0, tol) = T.cur(), T.end(), T.keep()
            for u in ('error_estimate_', 'size_proportion_', 'norm_J_', 'norm_J_inverse_', 'norm_delta_z_', 'condition_number_estimate_'): T.o.cell(u)
            r = toz(eng.call_fn(find1(eng.db, AMP+'::TrackerIteration', lambda f: not f.get('targs')), T.o, []), Int); y = T.cur(); k = T.keep()
            eng.prove('an iteration moves neither the time nor the end time nor the step', z3.And(k[0] == t, T.end() == e0, k[1] == dt, k[3] == n0, k[4] == tol))
            eng.prove('success: the new point is corrected at the next time', z3.Implies(r == ok(eng), CORR(y, t+dt, tol)))
            eng.prove('failure: the point is kept', z3.Implies(r != ok(eng), y == x))
            eng.prove('the length of the point is kept', T.length() == z3.Int('dim'))
            eng.prove('the step size is at most the maximum', k[2] <= S('max_step_size'))
            eng.prove('the step is predicted from the current point', z3.And(th.predicted[0] == x, th.predicted[1] == t, th.predicted[2] == dt))
            for c in th.corrections:
                eng.prove('the predicted point is corrected', c[0] == th.pred_result); eng.prove('correction to the tracking tolerance within the configured iterations', z3.And(c[2] == tol, c[3] == toz(T.cfg('NewtonConfig', 'min_num_newton_iterations'), Int), c[4] == toz(T.cfg('NewtonConfig', 'max_num_newton_iterations'), Int)))
        out.append(Group('TrackerIteration AMP '+nm, [AMP+'::'+n for n in ('TrackerIteration', 'Predict', 'Correct', 'AdjustAMPStepSuccess', 'InitialMatrixSolveError', 'NewtonConvergenceError', 'AMPCriterionError', 'UpdatePrecisionAndStepsize')], run_iter, TT, setup=with_(ChangePrecision=change_c(False))))
    def iter_c(eng, f, this, e):
        if f.get('targs'): return NotImplemented
        T = eng.T; S = lambda n: R(T.cfg('SteppingConfig', n)); x, L, (t, dt, h, n0, tol), th = T.cur(), T.length(), T.keep(), eng.theory
        d = T.end() - t
        eng.prove('no step is tried with a size below the minimum', h >= S('min_step_size'))
        eng.prove('no step is tried with a size above the maximum', h <= S('max_step_size'))
        eng.prove('the step goes towards the end time, by the step size or up to the end', z3.Or(dt == h*d/ABS(d), z3.And(dt == d, ABS(d) < z3.If(h >= 0, h, -h))))
        th.tried = True
        for n in ('previous_precision_', 'current_precision_', 'next_precision_'): T.o.cell(n).set(eng.sym_value('unsigned int', n))
        for n in ('next_stepsize_', 'current_stepsize_'): T.o.cell(n).set(eng.fresh(n, Real))
        for k in (DBLC, MPC):
            for n in ('current_space_', 'temporary_space_', 'tentative_space_'): T.vec(n, k).set(vec(eng.fresh(n+k[:3], Real), eng.fresh('len', Int)))
        r = eng.fresh('code', Int); eng.fact(z3.And(r >= -1, r <= 15)); eng.fact(T.length() == L)
        eng.fact(z3.If(r == code(eng, 'Success'), CORR(T.cur(), t+dt, tol), T.cur() == x)); eng.fact(T.r('current_stepsize_') <= S('max_step_size'))
        return r
    def init_c(eng, f, this, e):
        T = eng.T; a = [eng.rv(x) for x in e['args']]
        for n in ('previous_precision_', 'current_precision_', 'initial_precision_', 'num_successful_steps_taken_', 'num_precision_decreases_', 'num_successful_steps_since_stepsize_increase_', 'num_successful_steps_since_precision_decrease_', 'num_failed_steps_taken_', 'num_consecutive_successful_steps_', 'num_consecutive_failed_steps_'): T.o.cell(n).set(eng.sym_value('unsigned int', n))
        for n in ('current_stepsize_', 'current_time_', 'endtime_', 'endtime_highest_precision_'): T.o.cell(n).set(eng.fresh(n, Real))
        for k in (DBLC, MPC):
            for n in ('current_space_', 'temporary_space_', 'tentative_space_'): T.vec(n, k).set(vec(eng.fresh(n+k[:3], Real), eng.fresh('len', Int)))
        r = eng.fresh('code', Int); ok = code(eng, 'Success')
        eng.fact(z3.Or(r == ok, r == code(eng, 'SingularStartPoint'))); eng.fact(z3.And(T.r('current_time_') == R(a[0]), T.end() == R(a[1]), T.r('endtime_highest_precision_') == R(a[1]), T.i('num_successful_steps_taken_') == 0, T.length() == toz(a[2].rows, Int)))
        eng.fact(z3.Implies(r == ok, CORR(T.cur(), R(a[0]), T.r('tracking_tolerance_')))); eng.fact(T.r('current_stepsize_') <= R(T.cfg('SteppingConfig', 'max_step_size')))
        return r
    def run_path(eng):
        T = AT(eng); assume_config(eng, T); th = eng.theory; S = lambda n: T.cfg('SteppingConfig', n)
        x0, t0, t1 = (eng.fresh(n, Real) for n in ('x0', 't0', 't1')); dim = z3.Int('dim'); tol = T.r('tracking_tolerance_'); trunc = T.g('infinite_path_truncation_')
        for n in ('min_step_size', 'max_num_steps'): S(n)
        T.cfg('AdaptiveMultiplePrecisionConfig', 'maximum_precision'); T.o.cell('path_truncation_threshold_')
        th.invs = lambda: [('on path', CORR(T.cur(), T.r('current_time_'), tol)), ('end', z3.And(T.end() == t1, T.r('endtime_highest_precision_') == t1)), ('h<=max', T.r('current_stepsize_') <= R(S('max_step_size'))), ('len', T.length() == dim),
                           ('n<=max', z3.And(T.i('num_successful_steps_taken_') >= 0, T.i('num_successful_steps_taken_') <= toz(S('max_num_steps'), Int)))]
        th.sources = lambda: [T.cur()]
        sol = Cell(eng, vec(eng.fresh('old_solution', Real), eng.fresh('old_dim', Int)), 'solution')
        try: r = toz(eng.call_fn(find1(eng.db, TR+'Tracker<'+AMP+'>::TrackPath'), T.o, [sol, Cell(eng, t0), Cell(eng, t1), Cell(eng, vec(x0, dim))]), Int)
        except ThrowEx: return
        th.invs = None; K = lambda n: code(eng, n); n = T.i('num_successful_steps_taken_'); ok = K('Success'); P = toz(T.cfg('AdaptiveMultiplePrecisionConfig', 'maximum_precision'), Int)
        eng.prove('the successful steps stay within their maximum', n <= toz(S('max_num_steps'), Int))
        eng.prove('success only at the requested end time', z3.Implies(r == ok, SMALL(T.r('current_time_'), t1)))
        eng.prove('success only with a corrected point', z3.Implies(r == ok, CORR(val(sol.get()), T.r('current_time_'), tol)))
        eng.prove('the solution has the length of the system', z3.Implies(r == ok, toz(sol.get().rows, Int) == dim))
        eng.prove('the other results name their reason', z3.Or(r == ok, z3.And(r == K('SingularStartPoint'), n == 0), z3.And(r == K('MaxNumStepsTaken'), n >= toz(S('max_num_steps'), Int)), z3.And(r == K('MinStepSizeReached'), T.r('current_stepsize_') < R(S('min_step_size'))),
                  z3.And(r == K('MaxPrecisionReached'), z3.Or(T.i('current_precision_') > P, T.g('preserve_precision_'))), z3.And(r == K('GoingToInfinity'), trunc, NORM2(DEHOM(T.cur())) > T.r('path_truncation_threshold_'))))
    B = TR+'Tracker<'+AMP+'>'
    out.append(Group('TrackPath AMP', [B+'::TrackPath'] + [AMP+'::'+n for n in ('PreIterationCheck', 'OnStepSuccess', 'OnStepFail', 'CheckGoingToInfinity', 'CopyFinalSolution', 'PostTrackCleanup')], run_path, TT,
        setup=with_(ChangePrecision=change_c(False), TrackerIteration=iter_c, TrackerLoopInitialization=init_c)))
    return out
def refine_groups():
    out = []
    for nm, base, C, cp in [(k, TR+'Tracker<'+TR+'FixedPrecisionTracker<'+c+'>>', c, p) for k, c, p in KINDS] + [('AMP double', TR+'Tracker<'+AMP+'>', AMP, DBLC), ('AMP multiple', TR+'Tracker<'+AMP+'>', AMP, MPC)]:
        for given in (False, True):
            def run(eng, base=base, C=C, cp=cp, given=given):
                th = eng.theory; T = AT(eng) if C == AMP else St(eng, C); assume_config(eng, T)
                f = find1(eng.db, base+'::Refine', lambda f: len(f['params']) == (5 if given else 3) and cp in str(f.get('targs')))
                x, t = eng.fresh('x', Real), eng.fresh('t', Real); nx = Cell(eng, vec(eng.fresh('o', Real), eng.fresh('olddim', Int)))
                N = lambda n: toz(T.cfg('NewtonConfig', n), Int)
                tol, mx = (eng.fresh('tol', Real), eng.sym_value('unsigned int', 'max_its')) if given else (T.r('tracking_tolerance_'), N('max_num_newton_iterations'))
                a = [nx, Cell(eng, vec(x)), Cell(eng, t)] + ([Cell(eng, tol), Cell(eng, mx)] if given else [])
                try: r = toz(eng.call_fn(f, T.o, a), Int)
                except ThrowEx: return
                ok = len(th.corrections) == 1
                eng.prove('refining is one Newton correction', ok)
                if ok:
                    c = th.corrections[0]; eng.prove('the given point is corrected at the given time to the tolerance within the iterations, and its result reported', z3.And(c[0] == x, c[1] == t, c[2] == tol, c[4] == mx, r == c[5], val(nx.get()) == c[6], c[3] == (1 if given else N('min_num_newton_iterations'))))
            cl = AMP if C == AMP else TR+'FixedPrecisionTracker'
            out.append(Group('Refine %s%s' % (nm, ' to a tolerance' if given else ''), [base+'::Refine', cl+'::RefineImpl'], run, TT, setup=with_(ChangePrecision=change_c(False)) if C == AMP else setup))
    return out
def track_groups(): return refine_groups() + fixed_groups() + small_groups() + amp_groups()
