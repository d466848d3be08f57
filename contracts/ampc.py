"""P16: the criteria of adaptive precision (AMP papers) and the choices made from them."""
import z3
from fractions import Fraction
from engine.symex import *
from engine.verify import Group
from engine.nodetheory import NodeTheory, Rec
from engine import models as MD
from .nodes import find1
TR = 'bertini::tracking::'
CFG = TR+'AdaptiveMultiplePrecisionConfig'
R = lambda x: toz(x, Real)
def log10(x): return MD.uf('log10')(R(x))
NORM = z3.Function('norm_', Int, Real)
class AmpTheory(NodeTheory):
    V = None
    def reset(s, eng):
        super().reset(eng); s.norms = {}
    def mat_fn(s, eng, n, m, f):
        if n != 'norm': raise Unsupported('matrix '+n)
        i, j = z3.Ints('mi mj'); key = (str(m.rows), str(m.cols), R(m.elem(i, j)).sexpr())
        if key not in s.norms: s.norms[key] = eng.fresh('norm', Real); eng.fact(s.norms[key] >= 0)
        return s.norms[key]
DIG = {}
def numdigits(eng, f, this, e):
    c = z3.Int('digits<%s>' % ('double' if 'std::complex<double>' in f['q'] or f['q'].endswith('<double>::NumDigits') else 'multiple')); return c
def real(eng, n): return eng.sym_value('double', n)
def cell(eng, v): return Cell(eng, v)
def setup(eng):
    for t in list(eng.db.byq):
        if t.startswith('bertini::NumTraits<') and t.endswith('::NumDigits'): eng.contract_calls[t] = numdigits
def config(eng):
    o = Obj(eng, CFG); g = lambda n: o.cell(n).get(); return o, g
def rhsA(nJ, nJi, g): return toz(g('safety_digits_1'), Real) + log10(nJi*g('epsilon')*(nJ+g('Phi')))
def rhsD(nJ, nJi, g): return log10(nJi*((2+g('epsilon'))*nJ + g('epsilon')*g('Phi'))+1)
def rhsB(nJ, nJi, N, tol, res, g): return toz(g('safety_digits_1'), Real) + rhsD(nJ, nJi, g) + (-log10(tol)+log10(res))/toz(N, Real)
def rhsC(nJi, nz, tol, g): return toz(g('safety_digits_2'), Real) - log10(tol) + log10(nJi*g('Psi')+nz)
AM = TR+'amp::'
def criteria_groups():
    out = []
    def mk(name, q, pred, args, spec, digits=None):
        def run(eng):
            f = find1(eng.db, q, pred); o, g = config(eng)
            a = args(eng, o); r = eng.call_fn(f, None, [cell(eng, x) for x in a])
            want = spec(eng, a, g)
            if digits is None: eng.prove(name+': value', R(r) == want)
            else:
                d = z3.Int('digits<%s>' % digits)
                eng.prove(name+': holds exactly if the digits exceed the right-hand side', toz(r, BoolS) == (z3.ToReal(d) > want))
        out.append(Group(name, [q], run, AmpTheory, setup=setup))
    true = lambda f: True
    A = lambda eng, o: [real(eng, 'nJ'), real(eng, 'nJi'), o]
    mk('CriterionARHS', AM+'CriterionARHS', true, A, lambda eng, a, g: rhsA(a[0], a[1], g))
    mk('D', AM+'D', true, A, lambda eng, a, g: rhsD(a[0], a[1], g))
    def B(eng, o):
        n = eng.sym_value('unsigned int', 'N'); eng.assume(n > 0)
        return [real(eng, 'nJ'), real(eng, 'nJi'), n, real(eng, 'tol'), real(eng, 'res'), o]
    mk('CriterionBRHS', AM+'CriterionBRHS', true, B, lambda eng, a, g: rhsB(a[0], a[1], a[2], a[3], a[4], g))
    C = lambda eng, o: [real(eng, 'nJi'), real(eng, 'nz'), real(eng, 'tol'), o]
    mk('CriterionCRHS', AM+'CriterionCRHS', lambda f: 'Eigen' not in f['key'], C, lambda eng, a, g: rhsC(a[0], a[1], a[2], g))
    CM = lambda eng, o: [real(eng, 'nJi'), eng.sym_value('Eigen::Matrix<double, -1, 1>', 'z'), real(eng, 'tol'), o]
    for nm, t in (('double', 'std::complex<double>'), ('multiple', 'mpc_complex')):
        has = lambda f, t=t: t in f['key']
        hasT = lambda f, t=t: t in str(f.get('targs'))
        mk('CriterionCRHS point %s' % nm, AM+'CriterionCRHS', lambda f, t=t: 'Eigen' in f['key'] and t in f['key'], CM, lambda eng, a, g: rhsC(a[0], eng.theory.mat_fn(eng, 'norm', a[1], None), a[2], g))
        mk('CriterionA %s' % nm, AM+'CriterionA', hasT, A, lambda eng, a, g: rhsA(a[0], a[1], g), nm)
        mk('CriterionB %s' % nm, AM+'CriterionB', hasT, B, lambda eng, a, g: rhsB(a[0], a[1], a[2], a[3], a[4], g), nm)
        mk('CriterionC %s' % nm, AM+'CriterionC', lambda f, t=t: t in str(f.get('targs')), CM, lambda eng, a, g: rhsC(a[0], eng.theory.mat_fn(eng, 'norm', a[1], None), a[2], g), nm)
    return out

# ------------------------------------------------------------------ costs and step sizes
LOWP, INC, DBL = 20, 10, 16
POW10 = lambda e: MD.PWR(z3.RealVal(10), R(e))
def stepB(p, dB, N, o): return POW10((z3.ToReal(toz(p, Int)) - z3.ToReal(toz(dB, Int)))*R(N)/R(toz(o, Int)+1))
def cost(p): return z3.If(toz(p, Int) == DBL, z3.RealVal(1), z3.RealVal(Fraction('10.35')) + z3.RealVal(Fraction('0.13'))*z3.ToReal(toz(p, Int)))
def uns(eng, n, lo=0, hi=10**6):
    x = eng.sym_value('unsigned int', n); eng.assume(z3.And(x >= lo, x <= hi)); return x
def cost_groups():
    def run_cost(eng):
        p = uns(eng, 'p'); r = eng.call_fn(find1(eng.db, TR+'ArithmeticCost'), None, [cell(eng, p)])
        eng.prove('ArithmeticCost', R(r) == cost(p))
    def run_step(eng):
        a = [uns(eng, n) for n in ('p', 'dB', 'N', 'o')]
        r = eng.call_fn(find1(eng.db, TR+'StepsizeSatisfyingCriterionB'), None, [cell(eng, x) for x in a])
        eng.prove('StepsizeSatisfyingCriterionB', R(r) == stepB(*a))
    def run_digits(eng):
        ls, t, sd = real(eng, 'ls'), real(eng, 't'), uns(eng, 'sd')
        r = eng.call_fn(find1(eng.db, TR+'MinDigitsForLogOfStepsize'), None, [cell(eng, x) for x in (ls, t, sd)])
        ab = z3.If(t >= 0, t, -t); s_ = -z3.ToInt(-ls) - z3.ToInt(-log10(ab)) + sd
        eng.assume(s_ >= 0)
        eng.prove('MinDigitsForLogOfStepsize', toz(r, Int) == s_)
    def run_time(eng):
        p, t, sd = uns(eng, 'p'), real(eng, 't'), eng.sym_value('int', 'sd')
        r = eng.call_fn(find1(eng.db, TR+'MinTimeForCurrentPrecision'), None, [cell(eng, x) for x in (p, t, sd)])
        want = R(MD.power(eng, z3.RealVal(10), sd-p))*t; small = z3.RealVal('1e-150')
        eng.prove('MinTimeForCurrentPrecision', R(r) == z3.If(z3.And(p == DBL, want < small), small, want))
    return [Group('MinTimeForCurrentPrecision', [TR+'MinTimeForCurrentPrecision'], run_time, AmpTheory), Group('ArithmeticCost', [TR+'ArithmeticCost'], run_cost, AmpTheory), Group('StepsizeSatisfyingCriterionB', [TR+'StepsizeSatisfyingCriterionB'], run_step, AmpTheory),
            Group('MinDigitsForLogOfStepsize', [TR+'MinDigitsForLogOfStepsize'], run_digits, AmpTheory)] + [min_group()]
# candidates: double precision if allowed, then the multiples of the increment
HIGH = MD.uf('limits_highest', 1)(z3.RealVal(0))
COSTF = z3.Function('cost_', Int, Real); STEPF = z3.Function('stepB_', Int, Int, Int, Int, Real); QUOT = z3.Function('cost_per_step_', Int, Real)
class MinTheory(AmpTheory):
    J = z3.Int('any_candidate')
    def extra_candidates(s, eng, q, q0, k, occ):
        if getattr(s, 'sp', None) is None: return []
        out = []; sp = s.sp
        reals = [(n, t) for n, t in q if t.sort() == Real and n[0] == 'c']; ints = [(n, t) for n, t in q if t.sort() == Int and n[0] == 'c']
        for n, t in reals:
            out.append((n+'<=cost(J)', z3.Implies(z3.And(s.J >= 0, s.J < k), t <= sp['cost'](sp['lo'] + INC*s.J))))
            out.append((n+'<=cost(16)', z3.Implies(sp['min'] <= DBL, t <= sp['cost'](z3.IntVal(DBL)))))
            out.append((n+'<=HIGH', t <= HIGH))
            for m, p in ints:
                isc = z3.Or(z3.And(p == DBL, sp['min'] <= DBL), z3.And(p >= sp['lo'], p < sp['lo']+INC*k, (p - sp['lo']) % INC == 0))
                no = z3.And(p == sp['none'], k == 0, sp['min'] > DBL)
                out.append((n+'=cost@'+m, z3.Or(z3.And(isc, t == sp['cost'](p)), z3.And(no, t == HIGH))))
                out.append((n+'=step@'+m, z3.Or(z3.And(isc, t == sp['step'](p)), z3.And(no, t == sp['min_step']))))
        for m, p in ints: out.append((m+'=lo+inc*k', p == sp['lo'] + INC*k)); out.append((m+'<=hi+inc', z3.Or(p <= sp['hi'] + INC, p == sp['lo'])))
        return out
    def unroll(s, eng, k):
        super().unroll(eng, k)
        if getattr(s, 'sp', None): s.sp['pos'](s.sp['lo'] + INC*k)
def consts(eng):
    eng.models['Eigen::GenericNumTraits<double>::highest'] = lambda s, e, f: HIGH
    eng.contract_calls[TR+'ArithmeticCost'] = lambda eng, f, this, e: COSTF(toz(eng.rv(e['args'][0]), Int))
    eng.contract_calls[TR+'StepsizeSatisfyingCriterionB'] = lambda eng, f, this, e: STEPF(*[toz(eng.rv(a), Int) for a in e['args']])
    return eng
def ceil10(x): return ((x + INC-1)/INC)*INC
def min_group():
    def run(eng):
        th = eng.theory; th.sp = None
        f = find1(eng.db, TR+'MinimizeTrackingCost')
        np_, ns_ = Cell(eng, uns(eng, 'np'), 'new_precision'), Cell(eng, real(eng, 'ns'), 'new_stepsize')
        mn, mx, dB, N, o = [uns(eng, n) for n in ('min_precision', 'max_precision', 'dB', 'N', 'order')]
        ms, Ms = real(eng, 'min_step'), real(eng, 'max_step'); eng.assume(Ms > 0)
        step = lambda p: z3.If(STEPF(p, dB, N, o) < Ms, STEPF(p, dB, N, o), Ms)
        C = lambda p: COSTF(p)/step(p)
        lo = z3.If(mn < LOWP, z3.IntVal(LOWP), ceil10(mn))
        hi = z3.If(mx < LOWP, z3.IntVal(LOWP), z3.If(z3.And(mn <= mx, (mx/INC)*INC < lo), lo, (mx/INC)*INC))
        none = z3.IntVal(1000+1)
        def pos(p):      # step sizes are powers of ten, arithmetic costs something, costs per step are finite
            eng.fact(STEPF(p, dB, N, o) > 0); eng.fact(COSTF(p) > 0); eng.fact(C(p) < HIGH)
        th.sp = dict(cost=C, step=step, lo=lo, hi=hi, min=mn, min_step=ms, none=none, pos=pos)
        J = th.J
        for p in (z3.IntVal(DBL), z3.IntVal(LOWP), lo, lo + INC*J): pos(p)
        eng.call_fn(f, None, [np_, ns_, cell(eng, mn), cell(eng, ms), cell(eng, mx), cell(eng, Ms), cell(eng, dB), cell(eng, N), cell(eng, o)])
        p = np_.get(); s_ = ns_.get()
        p = toz(p, Int); pos(p)
        iscand = lambda x: z3.Or(z3.And(x == DBL, mn <= DBL), z3.And(x >= lo, x <= hi, (x-lo) % INC == 0))
        empty = z3.And(mn > DBL, hi < lo)
        eng.prove('chosen precision is a candidate', z3.Or(iscand(p), z3.And(p == none, empty)))
        eng.prove('step size goes with the chosen precision', z3.Implies(z3.Not(empty), R(s_) == step(p)))
        eng.prove('no precision in the range: minimal step size', z3.Implies(empty, R(s_) == ms))
        eng.prove('no multiple precision candidate is cheaper', z3.Implies(z3.And(J >= 0, lo+INC*J <= hi), C(p) <= C(lo+INC*J)))
        eng.prove('double precision is not cheaper', z3.Implies(mn <= DBL, C(p) <= C(z3.IntVal(DBL))))
    return Group('MinimizeTrackingCost', [TR+'MinimizeTrackingCost'], run, MinTheory, setup=consts)
# ------------------------------------------------------------------ decisions of the tracker
AMP = TR+'AMPTracker'
def mat_norm_cell(eng, o, cplx):
    tp = o.cell('current_space_').get()
    for t, c in zip(tp.types, tp.cells):
        if cplx in t: return eng.theory.mat_fn(eng, 'norm', c.get(), None)
    raise Unsupported('current_space_')
class Trk:
    """state of the tracker: configuration and the quantities the decisions depend on"""
    def __init__(s, eng):
        s.eng = eng; s.o = Obj(eng, AMP); s.calls = []; s.updated = []
        base = eng.db.bases(AMP)
        def lazy(name):
            return NotImplemented
        s.o.ghost['lazy'] = lazy
    def g(s, n): return s.o.cell(n).get()
    def cfg(s, cls, n):
        t = s.o.cell('configuration_').get()
        for tt, c in zip(t.types, t.cells):
            if strip_t(tt) == TR+cls: return c.get().cell(n).get()
        raise Unsupported('configuration '+cls)
def trk_setup(eng):
    setup(eng); consts(eng)
    def minimize(eng, f, this, e):
        a = [eng.lv(x) for x in e['args']]
        t = eng.trk; v = [c.get() for c in a]
        np_, ns_ = eng.sym_value('unsigned int', 'chosen_precision'), eng.sym_value('double', 'chosen_step')
        mn, ms, mx, Ms = toz(v[2], Int), R(v[3]), toz(v[4], Int), R(v[5])
        # the contract proved for MinimizeTrackingCost
        lo = z3.If(mn < LOWP, z3.IntVal(LOWP), ceil10(mn)); hi = z3.If(mx < LOWP, z3.IntVal(LOWP), z3.If(z3.And(mn <= mx, (mx/INC)*INC < lo), lo, (mx/INC)*INC))
        empty = z3.And(mn > DBL, hi < lo)
        eng.fact(z3.If(empty, z3.And(np_ == 1001, ns_ == ms), z3.And(z3.Or(z3.And(np_ == DBL, mn <= DBL), z3.And(np_ >= lo, np_ <= hi)), ns_ <= Ms)))
        t.calls.append(dict(min=mn, max=mx, mstep=ms, Mstep=Ms, dB=v[6], N=v[7], order=v[8]))
        a[0].set(np_); a[1].set(ns_); return None
    eng.contract_calls[TR+'MinimizeTrackingCost'] = minimize
    def update(eng, f, this, e):
        eng.trk.updated.append((eng.trk.g('next_precision_'), eng.trk.g('next_stepsize_'))); return eng.fresh('code', Int)
    eng.contract_calls[AMP+'::UpdatePrecisionAndStepsize'] = update
    eng.contract_calls['bertini::NumTraits<boost::multiprecision::number<boost::multiprecision::backends::mpfr_float_backend<0, allocate_dynamic>>>::FromRational'] = lambda eng, f, this, e: eng.rv(e['args'][0])
def zmax(*xs):
    r = xs[0]
    for x in xs[1:]: r = z3.If(r < x, x, r)
    return r
def trunc(x): return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
def tracker_groups():
    out = []
    for nm, cp in (('double', 'std::complex<double>'), ('multiple', 'mpc_complex')):
        has = lambda f, cp=cp: cp in str(f.get('targs'))
        def digits(t, cp=cp):
            g = t.g; c = lambda n: t.cfg('AdaptiveMultiplePrecisionConfig', n)
            N = t.cfg('NewtonConfig', 'max_num_newton_iterations')
            b = rhsB(g('norm_J_'), g('norm_J_inverse_'), N, g('tracking_tolerance_'), g('size_proportion_'), c)
            cc = rhsC(g('norm_J_inverse_'), mat_norm_cell(t.eng, t.o, cp), g('tracking_tolerance_'), c)
            return trunc(zmax(b, z3.RealVal(0))), trunc(zmax(cc, z3.RealVal(0)))
        def start(eng):
            t = eng.trk = Trk(eng)
            eng.assume(t.cfg('NewtonConfig', 'max_num_newton_iterations') > 0)
            return t
        def run_min(eng, has=has, digits=digits):
            t = start(eng); r = eng.call_fn(find1(eng.db, AMP+'::MinRequiredPrecision_BCTol', has), t.o, [])
            b, c = digits(t)
            eng.prove('required precision: criteria B and C, the tracking tolerance, double precision', toz(r, Int) == zmax(b, c, t.g('digits_tracking_tolerance_'), z3.IntVal(DBL)))
        out.append(Group('MinRequiredPrecision_BCTol '+nm, [AMP+'::'+x for x in ('MinRequiredPrecision_BCTol', 'DigitsB', 'DigitsC', 'B_RHS', 'C_RHS')], run_min, AmpTheory, setup=trk_setup))
        def run_succ(eng, has=has, digits=digits):
            t = start(eng); old = {n: t.g(n) for n in ('current_precision_', 'current_stepsize_', 'num_successful_steps_since_stepsize_increase_', 'num_successful_steps_since_precision_decrease_', 'num_precision_decreases_')}
            S = lambda n: t.cfg('SteppingConfig', n)
            P = lambda n: t.cfg('AdaptiveMultiplePrecisionConfig', n)
            for n in ('max_step_size', 'step_size_success_factor', 'step_size_fail_factor'): eng.assume(R(S(n)) > 0)
            cs = R(old['current_stepsize_']); eng.assume(cs > 0); eng.assume(cs <= S('max_step_size')); eng.assume(R(S('step_size_success_factor')) >= 1)
            cp_ = old['current_precision_']; eng.assume(cp_ >= DBL)
            eng.call_fn(find1(eng.db, AMP+'::AdjustAMPStepSuccess', has), t.o, [])
            b, c = digits(t); need = zmax(b, c, t.g('digits_tracking_tolerance_'), z3.IntVal(DBL))
            np_, ns_ = toz(t.g('next_precision_'), Int), R(t.g('next_stepsize_'))
            eng.prove('one choice is made and applied', len(t.calls) == 1 and len(t.updated) == 1 and t.updated[0][0] is t.g('next_precision_') and t.updated[0][1] is t.g('next_stepsize_'))
            k = t.calls[0]
            eng.prove('the choice uses the digits of criterion B, the Newton iterations and the order', z3.And(toz(k['dB'], Int) == b, toz(k['N'], Int) == t.cfg('NewtonConfig', 'max_num_newton_iterations'), toz(k['order'], Int) == t.g('predictor_order_')))
            eng.prove('chosen precision reaches the required one', np_ >= need)
            eng.prove('step size stays below its maximum', ns_ <= R(S('max_step_size')))
            eng.prove('step size grows at most by the success factor', z3.Or(ns_ <= cs*R(S('step_size_success_factor')), ns_ <= cs))
            eng.prove('step size grows only after enough successful steps', z3.Implies(old['num_successful_steps_since_stepsize_increase_'] < S('consecutive_successful_steps_before_stepsize_increase'), ns_ <= cs))
            eng.prove('precision falls only after enough successful steps and decreases left', z3.Implies(z3.Or(old['num_successful_steps_since_precision_decrease_'] < P('consecutive_successful_steps_before_precision_decrease'), old['num_precision_decreases_'] >= P('max_num_precision_decreases')), np_ >= cp_))
            eng.prove('decreases of precision are counted', toz(t.g('num_precision_decreases_'), Int) == toz(old['num_precision_decreases_'], Int) + z3.If(np_ < cp_, 1, 0))
            eng.prove('steps since the last decrease of precision are counted', toz(t.g('num_successful_steps_since_precision_decrease_'), Int) == z3.If(np_ < cp_, z3.IntVal(0), toz(old['num_successful_steps_since_precision_decrease_'], Int)+1))
            eng.prove('steps since the last increase of the step size are counted', toz(t.g('num_successful_steps_since_stepsize_increase_'), Int) == z3.If(z3.Or(ns_ > cs, np_ < cp_), z3.IntVal(0), toz(old['num_successful_steps_since_stepsize_increase_'], Int)+1))
        out.append(Group('AdjustAMPStepSuccess '+nm, [AMP+'::AdjustAMPStepSuccess'], run_succ, AmpTheory, setup=trk_setup))
        def run_crit(eng, has=has, digits=digits):
            t = start(eng); S = lambda n: t.cfg('SteppingConfig', n)
            cp_, cs = t.g('current_precision_'), R(t.g('current_stepsize_'))
            ff = R(S('step_size_fail_factor')); eng.assume(z3.And(ff > 0, ff < 1, cs > 0)); eng.assume(z3.And(cp_ >= DBL, z3.Or(cp_ == DBL, cp_ >= LOWP), cp_ <= 1000)); eng.assume(t.g('num_consecutive_failed_steps_') < 10**6)
            eng.assume(R(t.g('tracking_tolerance_')) > 0)
            eng.call_fn(find1(eng.db, AMP+'::AMPCriterionError', has), t.o, [])
            np_, ns_ = toz(t.g('next_precision_'), Int), R(t.g('next_stepsize_'))
            eng.prove('the choice is applied', len(t.updated) == 1 and t.updated[0][0] is t.g('next_precision_') and t.updated[0][1] is t.g('next_stepsize_'))
            eng.prove('precision increases', np_ > cp_)
            if t.calls:
                b, c = digits(t)
                eng.prove('precision reaches criteria B and C and the final tolerance', z3.Or(np_ == 1001, z3.And(np_ >= b, np_ >= c, np_ >= toz(t.g('digits_final_'), Int))))
                eng.prove('step size decreases', ns_ <= cs*ff)
        out.append(Group('AMPCriterionError '+nm, [AMP+'::AMPCriterionError'], run_crit, AmpTheory, setup=trk_setup))
    def run_init(eng):
        t = eng.trk = Trk(eng); cp_, cs = t.g('current_precision_'), R(t.g('current_stepsize_')); eng.assume(z3.And(cp_ >= DBL, z3.Or(cp_ == DBL, cp_ >= LOWP), cp_ <= 1000)); eng.assume(t.g('num_consecutive_failed_steps_') < 10**6)
        eng.call_fn(find1(eng.db, AMP+'::InitialMatrixSolveError'), t.o, [])
        eng.prove('precision increases', toz(t.g('next_precision_'), Int) > cp_); eng.prove('step size is kept', R(t.g('next_stepsize_')) == cs)
        eng.prove('the choice is applied', len(t.updated) == 1)
    out.append(Group('InitialMatrixSolveError', [AMP+'::InitialMatrixSolveError'], run_init, AmpTheory, setup=trk_setup))
    def run_conv(eng):
        t = eng.trk = Trk(eng); cp_, cs = t.g('current_precision_'), R(t.g('current_stepsize_')); eng.assume(z3.And(cp_ >= DBL, z3.Or(cp_ == DBL, cp_ >= LOWP)))
        ff = R(t.cfg('SteppingConfig', 'step_size_fail_factor'))
        MINS = z3.Function('minstep', Int, Real)
        eng.contract_calls[TR+'MinStepSizeForPrecision'] = lambda eng, f, this, e: MINS(toz(eng.rv(e['args'][0]), Int))
        eng.call_fn(find1(eng.db, AMP+'::NewtonConvergenceError'), t.o, [])
        np_, ns_ = toz(t.g('next_precision_'), Int), R(t.g('next_stepsize_'))
        eng.prove('step size shrinks by the fail factor', ns_ == cs*ff)
        eng.prove('precision does not fall', np_ >= cp_)
        eng.prove('the precision admits the step size', ns_ >= MINS(np_))
        eng.prove('the choice is applied', len(t.updated) == 1)
    out.append(Group('NewtonConvergenceError', [AMP+'::NewtonConvergenceError'], run_conv, AmpTheory, setup=trk_setup))
    return out
def amp_groups(): return criteria_groups() + cost_groups() + tracker_groups()
