"""P18: interpolation, averages over loops, samples and convergence of the endgames."""
import z3
from engine.symex import *
from engine.verify import Group
from engine.arrtheory import *
from engine.vectheory import VecTheory, install_system, SOLVE, J_, T_, vec, val, enum_value, NORMI, NORM2
from .nodes import find1
from engine import models as MD
from .solve import STheory, recs, N as _N
EG = 'bertini::endgame::'
WRAPV = (lambda t: vec(t), lambda m: val(m))
DIV = z3.Function('quotient', Real, Real, Real)      # a/b, as a function of a and b
MUL = z3.Function('product', Real, Real, Real)
class ETheory(STheory):
    """containers of points and of times are arrays over their index; a point is one representative"""
    cut = bare = ()
    def udiv(s, eng, a, b): return DIV(a, b)
    def umul(s, eng, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_rational_value(a) or z3.is_rational_value(b): return a*b
        eng.fact(MUL(a, b) == MUL(b, a)); return MUL(a, b)
    def container(s, eng, t, args=None):
        t = strip_t(t); a = strip_t(targs_of(t)[0])
        if t.startswith('Eigen::Matrix<Eigen::Matrix<'):
            if not args: return None
            n, m = [eng.rv(x) for x in args[:2]]; f = eng.freshfn('table', Int, Int, Real); r = Mat(n, m, lambda i, j: f(toz(i, Int), toz(j, Int))); r.wrap = WRAPV; return r
        if not (a.startswith('Eigen::Matrix<') or is_number_t(a) or a in ("double",)) : return None
        n = z3.IntVal(0)
        if args:
            v = eng.rv(args[0])
            if isinstance(v, Recs): return v
            if is_num(v) or is_z(v): n = toz(v, Int)
            else: return None
        r = recs(eng, None, n, wrap=('',) if a.startswith('Eigen::Matrix<') else (), **{'': eng.fresh('unset', z3.ArraySort(Int, Real))}); r.init = lambda x: None; return r
def points(eng, name, n): return Cell(eng, recs(eng, None, n, wrap=('',), **{'': z3.Array(name, Int, Real)}), name)
def numbers(eng, name, n): return Cell(eng, recs(eng, None, n, **{'': z3.Array(name, Int, Real)}), name)
A = z3.Select
def inst(db, q):
    """(name, function) of the instances of a function template: double and multiple"""
    return [('double' if 'std::complex<double>' in str(f.get('targs')) else 'multiple', f) for f in sorted(db.find(q), key=lambda f: f['key'])]
def hermite_groups():
    out = []
    for kind in ('double', 'multiple'):
        for back in (True, False):
            def run(eng, kind=kind, back=back):
                th = eng.theory; fs = [f for k, f in inst(eng.db, EG+'HermiteInterpolateAndSolve') if k == kind]
                if not fs: raise Unsupported('no instance')
                n, x = z3.Int('n'), z3.Real('target'); NT, NS, ND = z3.Ints('times samples derivatives'); eng.assume(z3.And(n >= 1, n < 2**30, NT >= n, NS >= n, ND >= n, NT < 2**31, NS < 2**31, ND < 2**31))
                T, S, D = z3.Array('t', Int, Real), z3.Array('s', Int, Real), z3.Array('d', Int, Real); ot, os_, od = (NT-1, NS-1, ND-1) if back else (n-1, n-1, n-1)
                Z, DD, H, HB = z3.Function('node', Int, Real), z3.Function('divided_difference', Int, Int, Real), z3.Function('horner', Int, Real), z3.Function('horner_as_recorded', Int, Real)
                mul = lambda a, b: th.umul(eng, a, b)
                def base(i):
                    """the nodes and the first column, for the pair of rows of sample i"""
                    for r in (2*i, 2*i+1): eng.fact(Z(r) == A(T, ot-i)); eng.fact(DD(r, 0) == A(S, os_-i))
                    eng.fact(DD(2*i+1, 1) == A(D, od-i))
                def rule(i, j): eng.fact(DD(i, j) == DIV(DD(i, j-1)-DD(i-1, j-1), Z(i)-Z(i-j)))
                def horner(i):
                    for h, a, b in ((H, 2*i, 2*i-2), (HB, i, i-1)): eng.fact(h(2*i-1) == mul(mul(h(2*i+1), x-Z(a))+DD(2*i, 2*i), x-Z(b))+DD(2*i-1, 2*i-1))
                for h in (H, HB): eng.fact(h(2*n-1) == DD(2*n-1, 2*n-1)); eng.fact(h(0) == mul(h(1), x-Z(0))+DD(0, 0))
                base(z3.IntVal(0))
                def mats(eng, el, el0, ix, k, outer):
                    i, j = ix; k = I(k); base(k); ii, odd, even = i/2, i%2 == 1, i%2 == 0
                    if outer: o = I(outer[0]); rule(2+o, 2+k)
                    else: rule(2*(1+k), z3.IntVal(1))
                    g = z3.And(i >= 0, i < 2*n, j >= 0)
                    yield 'node k', z3.Implies(z3.And(g, j == 0, i < 2*k), el == Z(i)); yield 'node', z3.Implies(z3.And(g, j == 0), el == Z(i))
                    for nm, c in (('value', j == 0), ('slope', z3.And(j == 1, odd))): yield nm+' k', z3.Implies(z3.And(g, c, i < 2*k), el == DD(i, j)); yield nm, z3.Implies(z3.And(g, c), el == DD(i, j))
                    c = z3.And(j == 1, even, i >= 2); yield 'chord k', z3.Implies(z3.And(g, c, i < 2+2*k), el == DD(i, j)); yield 'chord', z3.Implies(z3.And(g, c), el == DD(i, j))
                    c = z3.And(j >= 2, j <= i); yield 'table', z3.Implies(z3.And(g, c), el == DD(i, j))
                    if not outer: yield 'table k', z3.Implies(z3.And(g, c, i < 2+k), el == DD(i, j))
                    else: yield 'row', z3.Implies(z3.And(g, c, z3.Or(i < 2+o, z3.And(i == 2+o, j < 2+k))), el == DD(i, j))
                th.mats = mats
                def invs(eng, k, outer):
                    k = I(k); r = th.named(eng)('Result')
                    if not outer: yield 'k<=n', k <= n; yield 'k<n', k <= n-1; yield 'k<2n', k <= z3.If(n == 1, 0, 2*n-2)
                    else: yield 'k<row', k <= I(outer[0])+1
                    if r is not None and isinstance(r, Mat): horner(n-1-k); yield 'horner', val(r) == H(2*(n-1-k)+1); yield 'horner as recorded', val(r) == HB(2*(n-1-k)+1)
                th.invs = invs
                cs = Enum(enum_value(eng.db, 'ContStart::'+('Back' if back else 'Front')))
                r = eng.call_fn(fs[0], None, [Cell(eng, x), Cell(eng, n), Cell(eng, recs(eng, None, NT, **{'': T})), Cell(eng, recs(eng, None, NS, wrap=('',), **{'': S})), Cell(eng, recs(eng, None, ND, wrap=('',), **{'': D})), Cell(eng, cs)])
                eng.prove("Newton's form of the Hermite interpolation polynomial, at the nodes of the samples or at those of the recorded finding", z3.Or(val(r) == H(0), val(r) == HB(0)))
            out.append(Group('HermiteInterpolateAndSolve %s %s' % (kind, 'back' if back else 'front'), [EG+'HermiteInterpolateAndSolve'], run, ETheory, setup=lambda eng: None))
    return out
# ------------------------------------------------------------------ endgame objects
KINDS = [('double', 'FixedPrecEndgame<bertini::tracking::DoublePrecisionTracker>'), ('adaptive', 'AMPEndgame>')]
TRK = z3.Function('tracked', Real, Real, Real, Real)      # where the tracker arrives: (from time, to time, point)
REF = z3.Function('refined', Real, Real, Real)            # the corrector's point: (point, time)
DEH, JAC, DT, SLV = z3.Function('dehomogenized', Real, Real), z3.Function('jacobian', Real, Real, Real), z3.Function('time_derivative', Real, Real, Real), z3.Function('solution', Real, Real, Real)
class EG_:
    """an endgame of one flavor: its containers are arrays, everything else of its state is arbitrary"""
    def __init__(s, eng, flavor, kind):
        s.eng, s.kind = eng, kind; want = EG+flavor+'<'
        qs = sorted(q for q in eng.db.byq if q.startswith(want) and q.endswith('::RunImpl') and kind[1] in q)
        if not qs: raise Unsupported('no instance of '+flavor)
        s.q = qs[0][:-len('::RunImpl')]; f0 = find1(eng.db, qs[0]); s.cls = f0['cls']; s.ct = strip_t(f0['targs'][0]); s.o = o = Obj(eng, s.cls); s.ok = z3.IntVal(enum_value(eng.db, 'SuccessCode::Success')); s.bases = [s.cls]+list(eng.db.bases(s.cls))
        o.f['final_approximation_'] = Cell(eng, vec(z3.Real('final0')), 'final_approximation_'); o.f['previous_approximation_'] = Cell(eng, vec(z3.Real('previous0')), 'previous_approximation_')
        rec = eng.db.record(s.cls); th = eng.theory; th.eg = s; s.cont = {}
        for fl in rec['fields']:
            ft = strip_t(eng.field_type(s.cls, fl['name']))
            if ft.startswith('std::tuple<') and 'deque' in ft:
                tp = Tup.__new__(Tup); tp.types = targs_of(ft); tp.cells = []
                for x in tp.types:
                    r = th.container(eng, x); n = eng.fresh('size', Int); eng.assume(z3.And(n >= 0, n < 2**31)); nm = fl['name'].rstrip('_'); r = r.but(n=n, **{'': z3.Array(nm, Int, Real)}); c = Cell(eng, r, nm); tp.cells.append(c)
                    if s.ct.replace(' ', '') in strip_t(x).replace(' ', '') : s.cont.setdefault(nm, c)
                o.f[fl['name']] = Cell(eng, tp, fl['name'])
    def c(s, n): return s.cont[n]
    def arr(s, n): return s.cont[n].get().arr['']
    def n(s, n): return I(s.cont[n].get().n)
    def config(s, cls, name):
        fs = [f for q in s.eng.db.byq for f in s.eng.db.byq[q] if q.endswith('::Get') and 'Configured<' in q and (f.get('targs') or [''])[0].split('<')[0].split('::')[-1] == cls and f.get('cls') in s.bases]
        if not fs: raise Unsupported('configuration '+cls)
        return s.eng.call_fn(fs[0], s.o, []).get().cell(name).get()
    def fn(s, name):
        fs = [f for b in s.bases for q in s.eng.db.byq if q.endswith('::'+name) for f in s.eng.db.byq[q] if f.get('cls') == b]
        if not fs: raise Unsupported('no instance of '+name)
        return fs[0]
    def call(s, name, *args): r = s.eng.call_fn(s.fn(name), s.o, [a if isinstance(a, Cell) else Cell(s.eng, a) for a in args]); return r.get() if isinstance(r, (Cell, FnCell, Val)) else r
def eg_setup(eng):
    C = eng.contract_calls; th = lambda: eng.theory; a = lambda e, i: eng.rv(e['args'][i])
    C['bertini::DefaultPrecision'] = lambda eng, f, this, e: th().prec.set(a(e, 0)) if e['args'] else th().prec.get()
    def prec(eng, f, this, e):
        if len(e['args']) > 1: eng.rv(e['args'][1]); return None
        return th().digits(eng)
    C['bertini::Precision'] = prec
    C['bertini::pow'] = lambda eng, f, this, e: MD.power(eng, a(e, 0), a(e, 1))      # proved with P01
    C['bertini::System::precision'] = lambda eng, f, this, e: None
    C['bertini::System::NumVariables'] = lambda eng, f, this, e: z3.Int('dim')
    C['bertini::System::DehomogenizePoint'] = lambda eng, f, this, e: vec(DEH(val(a(e, 0))))
    C['bertini::Observable::NotifyObservers'] = lambda eng, f, this, e: None
    for q in eng.db.byq:
        n = q.split('::')[-1]
        if n in ('EnsureAtPrecision', 'ChangePrecision') and (q.startswith(EG) or q.startswith('bertini::tracking::')): C[q] = lambda eng, f, this, e: None
        if n == 'EnsureAtUniformPrecision': C[q] = lambda eng, f, this, e: th().digits(eng)
        if n == 'GetSystem' and (q.startswith(EG) or q.startswith('bertini::tracking::')): C[q] = lambda eng, f, this, e: Val(th().sys(eng))
        if n == 'GetTracker' and q.startswith(EG): C[q] = lambda eng, f, this, e: Val(th().tracker(eng))
        if q.startswith('bertini::tracking::Tracker<'):
            if n == 'TrackPath':
                def track(eng, f, this, e):
                    c = eng.lv(e['args'][0]); t0, t1, x = R(a(e, 1)), R(a(e, 2)), val(a(e, 3)); code = eng.fresh('track_code', Int); r = z3.If(code == th().eg.ok, TRK(t0, t1, x), eng.fresh('lost', Real)); c.set(vec(r)); th().tracks.append((t0, t1, x, r, code)); th().last_code.set(code); return code
                C[q] = track
            if n == 'Refine':
                def refine(eng, f, this, e):
                    c = eng.lv(e['args'][0]); x, t = val(a(e, 1)), R(a(e, 2)); c.set(vec(REF(x, t))); r = eng.fresh('refine_code', Int); th().refined(r); return r
                C[q] = refine
            if n == 'TrackingTolerance': C[q] = lambda eng, f, this, e: z3.Real('tracking_tolerance')
class GTheory(ETheory):
    def reset(s, eng): super().reset(eng); s.tracks = []; s._sys = s._trk = None; s.last_code = Cell(eng, z3.Int('no_code'), 'last_code')
    def refined(s, r): pass
    def digits(s, eng): return z3.Int('digits')
    def sys(s, eng): s._sys = s._sys or Obj(eng, 'bertini::System'); return s._sys
    def tracker(s, eng): s._trk = s._trk or Obj(eng, 'bertini::tracking::'+('DoublePrecisionTracker' if s.eg.kind[0] == 'double' else 'AMPTracker')); return s._trk
def sample_groups():
    out = []
    for kind in KINDS:
        for flavor in ('CauchyEndgame', 'PowerSeriesEndgame'):
            def run(eng, kind=kind, flavor=flavor):
                th = eng.theory; z = EG_(eng, flavor, kind); m = I(z.config('EndgameConfig', 'num_sample_points')); eng.assume(z3.And(m >= 1, m < 2**31)); f = R(z.config('EndgameConfig', 'sample_factor')); t0, t1, x = z3.Reals('start_time target_time start_point'); J = z3.Int('J'); eng.assume(z3.And(J >= 0, J < m))
                T, X = z3.Function('sample_time', Int, Real), z3.Function('sample_point', Int, Real); eng.fact(T(0) == t0); eng.fact(X(0) == x)
                def step(k): eng.fact(T(k+1) == th.umul(eng, T(k)-t1, f)+t1); eng.fact(X(k+1) == TRK(T(k), T(k+1), X(k)))
                ts, xs = numbers(eng, 'times0', z3.Int('nt')), points(eng, 'samples0', z3.Int('nx'))
                def invs(eng, k, outer):
                    k = I(k); step(k); yield 'sizes', z3.And(I(ts.get().n) == k+1, I(xs.get().n) == k+1); yield 'k<m', k <= m-1
                    for nm, c, F in (('times', ts, T), ('samples', xs, X)): a = c.get().arr['']; yield nm+' J', z3.Implies(J <= k, A(a, J) == F(J)); yield nm+' last', A(a, k) == F(k)
                th.invs = invs; code = z.call('ComputeInitialSamples', t0, t1, vec(x), ts, xs); ok = code == z.ok
                eng.prove('the code of the tracker', z3.Or(ok, I(code) == I(th.last_code.get()))); eng.prove('as many samples as asked for', z3.Implies(ok, z3.And(I(ts.get().n) == m, I(xs.get().n) == m))); eng.prove('times approach the target by the sample factor', z3.Implies(ok, A(ts.get().arr[''], J) == T(J))); eng.prove('each sample is tracked from the one before', z3.Implies(ok, A(xs.get().arr[''], J) == X(J)))
            out.append(Group('ComputeInitialSamples %s %s' % (flavor, kind[0]), [EG+'EndgameBase::ComputeInitialSamples'], run, GTheory, setup=eg_setup))
    return out
def refine_all(eng, f, this, e):
    c = eng.lv(e['args'][0]); c.set(c.get().but(**{'': eng.fresh('refined_points', z3.ArraySort(Int, Real))})); return eng.fresh('refine_code', Int)
def with_(setup, **cs):
    """setup plus contracts for the methods of the endgames with these names"""
    def s_(eng):
        setup(eng)
        for q in eng.db.byq:
            n = q.split('::')[-1]
            if n in cs and q.startswith(EG): eng.contract_calls[q] = cs[n]
    return s_
CA, PS = EG+'CauchyEndgame::', EG+'PowerSeriesEndgame::'
def advance_spec(eng, z, f, ts, xs, T, X, t1):
    """where AdvanceTime goes from the last sample"""
    th = eng.theory; n = th.umul(eng, T-t1, f)+t1; return n, TRK(T, n, X)
def cauchy_groups():
    out = []
    def refine_run(kind):
        def run(eng):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); ts, xs = z.c('cauchy_times'), z.c('cauchy_samples'); n = z.n('cauchy_times'); eng.assume(z.n('cauchy_samples') == n); J = z3.Int('J'); eng.assume(z3.And(J >= 0, J < n)); x0, t0 = xs.get().arr[''], ts.get().arr['']
            def invs(eng, k, outer): k = I(k); yield 'k<=n', k <= n; yield 'sizes', z3.And(I(xs.get().n) == n, I(ts.get().n) == n); yield 'J', A(xs.get().arr[''], J) == z3.If(J < k, REF(A(x0, J), A(t0, J)), A(x0, J)); yield 'times', ts.get().arr[''] == t0
            th.invs = invs; code = z.call('RefineAllSamples', xs, ts); eng.prove('every sample is refined at its own time', z3.Implies(code == z.ok, A(xs.get().arr[''], J) == REF(A(x0, J), A(t0, J)))); eng.prove('no sample is lost', z3.And(I(xs.get().n) == n, I(ts.get().n) == n))
        def sample(eng, f, this, e): c = eng.lv(e['args'][0]); c.set(vec(z3.If(True, REF(val(eng.rv(e['args'][1])), R(eng.rv(e['args'][2]))), 0))); return eng.fresh('refine_code', Int)
        return Group('RefineAllSamples '+kind[0], [EG+'EndgameBase::RefineAllSamples'], run, GTheory, setup=with_(eg_setup, RefineSample=sample))
    for kind in KINDS:
        out.append(refine_run(kind))
        def run_avg(eng, kind=kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); m, c = I(z.config('EndgameConfig', 'num_sample_points')), I(z.o.cell('cycle_number_').get()); eng.assume(z3.And(m >= 1, c >= 1)); res = Cell(eng, vec(z3.Real('result0')), 'result'); n = z3.Int('points'); eng.fact(n == c*m); eng.fact(n >= 1); SUM = z3.Function('sum_of_samples', Int, Real); eng.fact(SUM(0) == 0)
            xs = z.c('cauchy_samples')
            def invs(eng, k, outer): k = I(k); eng.fact(SUM(k+1) == SUM(k)+A(xs.get().arr[''], k)); yield 'k<=n', k <= n; yield 'sum', val(res.get()) == SUM(k)
            th.invs = invs
            try: code = z.call('ComputeCauchyApproximationOfXAtT0', res)
            except ThrowEx: eng.prove('refused only if the loop is not complete', z.n('cauchy_samples') != n+1); return
            eng.prove('the loop is complete', z.n('cauchy_samples') == n+1); eng.prove('the average over the samples of the loop, each once', z3.Or(code != z.ok, val(res.get())*z3.ToReal(n) == SUM(n)))
        class AvgTheory(GTheory): udiv = umul = None
        out.append(Group('ComputeCauchyApproximationOfXAtT0 '+kind[0], [CA+'ComputeCauchyApproximationOfXAtT0'], run_avg, AvgTheory, setup=with_(eg_setup, RefineAllSamples=refine_all)))
        def run_closed(eng, kind=kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); xs, ts = z.c('cauchy_samples'), z.c('cauchy_times'); n = z.n('cauchy_samples'); eng.assume(z3.And(n >= 2, z.n('cauchy_times') == n)); x0, t0 = xs.get().arr[''], ts.get().arr['']; J = z3.Int('J'); eng.assume(z3.And(J > 0, J < n-1)); r = z.call('CheckClosedLoop'); x1 = xs.get().arr['']; tol = z3.Real('tracking_tolerance'); r = toz(r, BoolS); d = lambda a, b: th.norm(eng, NORMI, a-b); a, b = A(x0, 0), A(x0, n-1); ra, rb = REF(a, A(t0, 0)), REF(b, A(t0, n-1))
            eng.prove('closed exactly if the ends agree, as they are or refined', r == z3.Or(d(a, b) < tol, d(ra, rb) < tol)); eng.prove('the samples between stay', A(x1, J) == A(x0, J)); eng.prove('size', z.n('cauchy_samples') == n)
        out.append(Group('CheckClosedLoop '+kind[0], [CA+'CheckClosedLoop'], run_closed, GTheory, setup=eg_setup))
        def run_adv(eng, kind=kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); xs, ts = z.c('pseg_samples'), z.c('pseg_times'); n = z.n('pseg_samples'); eng.assume(z3.And(n >= 1, z.n('pseg_times') == n)); x0, t0, t1 = xs.get().arr[''], ts.get().arr[''], z3.Real('target_time'); f = R(z.config('EndgameConfig', 'sample_factor')); J = z3.Int('J'); eng.assume(z3.And(J >= 0, J < n-1)) if False else None
            nt, nx = advance_spec(eng, z, f, ts, xs, A(t0, n-1), A(x0, n-1), t1); code = z.call('AdvanceTime', t1); ok = code == z.ok; few = z3.IntVal(enum_value(eng.db, 'SuccessCode::MinTrackTimeReached')); x1, s1 = xs.get().arr[''], ts.get().arr['']; early = toz(eng.lt(MD.absv(eng, nt-t1), z.config('EndgameConfig', 'min_track_time')), BoolS)
            eng.prove('stops where the time would pass the minimum', z3.If(early, code == few, z3.Or(ok, I(code) == I(th.last_code.get())))); eng.prove('the window moves by one', z3.Implies(ok, z3.And(z.n('pseg_samples') == n, z.n('pseg_times') == n))); eng.prove('time approaches the target by the sample factor', z3.Implies(ok, A(s1, n-1) == nt)); eng.prove('the sample is tracked from the last one', z3.Implies(ok, A(x1, n-1) == nx))
            eng.prove('the others move up', z3.Implies(z3.And(ok, J >= 0, J < n-1), z3.And(A(x1, J) == A(x0, J+1), A(s1, J) == A(t0, J+1))))
        out.append(Group('Cauchy AdvanceTime '+kind[0], [CA+'AdvanceTime', CA+'RotateOntoPS'], run_adv, GTheory, setup=eg_setup))
    return out
def loop_groups():
    out = []
    POLAR, ARG = MD.uf('polar', 2), MD.uf('arg')
    for kind in KINDS:
        def run_circle(eng, kind=kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); m = I(z.config('EndgameConfig', 'num_sample_points')); eng.assume(z3.And(m >= 3, m < 2**20)); ts, xs = z.c('cauchy_times'), z.c('cauchy_samples'); n = z.n('cauchy_times'); eng.assume(z3.And(n >= 1, z.n('cauchy_samples') == n)); t0, x0 = ts.get().arr[''], xs.get().arr['']; c = z3.Real('target_time'); s0 = A(t0, n-1); J, E = z3.Ints('J earlier'); eng.assume(z3.And(J >= 1, J <= m, E >= 0, E < n))
            T, X = z3.Function('circle_time', Int, Real), z3.Function('circle_point', Int, Real); TWOPI = 2*MD.uf('acos')(z3.RealVal(-1))
            def step(k): eng.fact(T(k+1) == z3.If(k+1 == m, s0, POLAR(MD.uf('abs')(s0-c), z3.ToReal(k+1)*TWOPI/z3.ToReal(m)+ARG(s0-c))+c)); eng.fact(X(k+1) == TRK(T(k), T(k+1), X(k)))
            eng.fact(T(0) == s0); eng.fact(X(0) == A(x0, n-1)); step(J-1)
            def invs(eng, k, outer):
                k = I(k); step(k); yield 'sizes', z3.And(z.n('cauchy_times') == n+k, z.n('cauchy_samples') == n+k); yield 'k<=m', k <= m
                for nm, o, b, F in (('cauchy_times', t0, ts, T), ('cauchy_samples', x0, xs, X)): a = b.get().arr['']; yield nm+' last', A(a, n-1+k) == F(k); yield nm+' J', z3.Implies(J <= k, A(a, n-1+J) == F(J)); yield nm+' earlier', A(a, E) == A(o, E)
            th.invs = invs; code = z.call('CircleTrack', c); ok = code == z.ok; t2, x2 = ts.get().arr[''], xs.get().arr['']
            eng.prove('the code of the tracker', z3.Or(ok, I(code) == I(th.last_code.get()))); eng.prove('a full circle of samples', z3.Implies(ok, z3.And(z.n('cauchy_times') == n+m, z.n('cauchy_samples') == n+m))); eng.prove('at equal angles on the circle through the first time', z3.Implies(ok, A(t2, n-1+J) == T(J))); eng.prove('back at the time it started from', z3.Implies(z3.And(ok, J == m), A(t2, n-1+J) == s0)); eng.prove('each sample is tracked from the one before', z3.Implies(ok, A(x2, n-1+J) == X(J))); eng.prove('earlier samples stay', z3.And(A(t2, E) == A(t0, E), A(x2, E) == A(x0, E)))
        class CircTheory(GTheory): udiv = umul = None
        out.append(Group('CircleTrack '+kind[0], [CA+'CircleTrack', CA+'AddToCauchyData', CA+'ValidateConfigs'], run_circle, CircTheory, setup=eg_setup))
        def seeded(z): return None
        def circle_c(eng, f, this, e):
            th = eng.theory; z = th.eg; m = I(z.config('EndgameConfig', 'num_sample_points')); code = eng.fresh('circle_code', Int); eng.prove('a loop in progress', z3.And(z.n('cauchy_times') >= 1, z.n('cauchy_samples') == z.n('cauchy_times')))
            for n in ('cauchy_times', 'cauchy_samples'): c = z.c(n); q = c.get(); k = I(q.n); a = eng.fresh('circled', q.arr[''].sort()); eng.assume(A(a, 0) == A(q.arr[''], 0)); c.set(q.but(n=z3.If(code == z.ok, k+m, eng.fresh('part', Int)), **{'': a}))
            th.circles.set(I(th.circles.get())+1); th.fresh.set(z3.BoolVal(False)); return code
        def closed_c(eng, f, this, e):
            th = eng.theory; z = th.eg; eng.prove('a loop to compare', z3.And(z.n('cauchy_samples') >= 2, z.n('cauchy_times') == z.n('cauchy_samples'))); r = eng.fresh('closed', BoolS); th.closed.set(r); th.fresh.set(z3.BoolVal(True)); c = z.c('cauchy_samples'); c.set(c.get().but(**{'': eng.fresh('ends_refined', c.get().arr[''].sort())})); return r
        def advance_c(eng, f, this, e):
            th = eng.theory; z = th.eg; code = eng.fresh('advance_code', Int)
            if hasattr(th, 'at_advance'): th.at_advance(eng)
            for n in ('pseg_times', 'pseg_samples'): c = z.c(n); c.set(c.get().but(**{'': eng.fresh('advanced', c.get().arr[''].sort())}))
            return code
        def begin(eng, kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); m = I(z.config('EndgameConfig', 'num_sample_points')); eng.assume(z3.And(m >= 3, m < 2**20, z.n('pseg_times') >= 1, z.n('pseg_samples') == z.n('pseg_times'))); th.circles, th.closed, th.fresh = Cell(eng, z3.IntVal(0), 'circles'), Cell(eng, z3.BoolVal(False), 'closed'), Cell(eng, z3.BoolVal(False), 'fresh'); z.cyc = lambda: I(z.o.cell('cycle_number_').get()); return th, z, m
        PR = z3.Function('samples_of_loops', Int, Int)
        def facts(eng, m, c): eng.fact(PR(0) == 0); eng.fact(PR(c+1) == PR(c)+m); eng.fact(PR(c) >= 0) ; eng.fact(z3.Implies(c >= 1, PR(c) >= m))
        def complete(z): return z3.And(z.n('cauchy_samples') == PR(z.cyc())+1, z.n('cauchy_times') == z.n('cauchy_samples'))
        def finish(eng, th, z, code):
            ok = code == z.ok; eng.prove('success only with a loop that was found closed', z3.Implies(ok, z3.And(toz(th.closed.get(), BoolS), toz(th.fresh.get(), BoolS)))); eng.prove('the samples of as many circles as the cycle number', z3.Implies(ok, complete(z))); eng.prove('at least one circle', z3.Implies(ok, z.cyc() >= 1))
        def run_init(eng, kind=kind):
            th, z, m = begin(eng, kind); top = I(z.config('CauchyConfig', 'fail_safe_maximum_cycle_number')); high = z3.IntVal(enum_value(eng.db, 'SuccessCode::CycleNumTooHigh'))
            def invs(eng, k, outer):
                facts(eng, m, z.cyc()); yield 'window', z3.And(z.n('pseg_times') >= 1, z.n('pseg_samples') == z.n('pseg_times'))
                if outer: yield 'complete', complete(z); yield 'circles', z.cyc() >= 1; yield 'k', z.cyc() == 1+I(k); yield 'bounded', z3.Or(I(k) == 0, z.cyc() <= top+1)
                else:
                    g = th.named(eng); on, code = g('loop_hasnt_closed'), g('initial_cauchy_loop_success')
                    if on is not None and code is not None: cl = toz(th.closed.get(), BoolS); yield 'left', z3.Or(toz(on, BoolS), z3.And(toz(th.fresh.get(), BoolS), complete(z), z.cyc() >= 1, z3.If(cl, I(code) == z.ok, z3.And(I(code) == high, z.cyc() > top))))
            th.invs = invs; facts(eng, m, z3.IntVal(0)); code = z.call('InitialCauchyLoops', z3.Real('target_time')); finish(eng, th, z, code); eng.prove('too many circles are reported', z3.Implies(z3.And(toz(th.fresh.get(), BoolS), z3.Not(toz(th.closed.get(), BoolS)), code != z.ok), z3.And(code == high, z.cyc() > top)))
        cs = dict(CircleTrack=circle_c, CheckClosedLoop=closed_c, AdvanceTime=advance_c, RatioEGOperatingZoneTest=lambda eng, f, this, e: eng.fresh('in_operating_zone', BoolS))
        class CutTheory(GTheory): cut = ('w',)
        out.append(Group('InitialCauchyLoops '+kind[0], [CA+'InitialCauchyLoops', CA+'ClearAndSeedCauchyData'], run_init, CutTheory, setup=with_(eg_setup, **cs)))
        def run_samp(eng, kind=kind):
            th, z, m = begin(eng, kind); top = I(z.config('CauchyConfig', 'fail_safe_maximum_cycle_number')); high = z3.IntVal(enum_value(eng.db, 'SuccessCode::CycleNumTooHigh'))
            def invs(eng, k, outer): facts(eng, m, z.cyc()); yield 'complete', complete(z); yield 'circles', z.cyc() == I(k); yield 'bounded', z3.Or(I(k) == 0, z.cyc() <= top)
            th.invs = invs; facts(eng, m, z3.IntVal(0)); code = z.call('ComputeCauchySamples', z3.Real('target_time')); finish(eng, th, z, code); eng.prove('at most as many circles as allowed', z3.Implies(code == z.ok, z.cyc() <= top))
        out.append(Group('ComputeCauchySamples '+kind[0], [CA+'ComputeCauchySamples', CA+'ClearAndSeedCauchyData'], run_samp, GTheory, setup=with_(eg_setup, **cs)))
    return out
def run_groups():
    out = []
    def fresh_code(nm): return lambda eng, f, this, e: eng.fresh(nm, Int)
    def estimate(eng, f, this, e):
        """a new estimate of the limit; ghost: the last two"""
        th = eng.theory; c = eng.lv(e['args'][0]); v = eng.fresh('estimate', Real); th.before.set(th.last.get()); th.last.set(v); c.set(vec(v)); code = eng.fresh('estimate_code', Int); return code
    def pre(eng, f, this, e):
        """called to go on: neither converged nor beyond the norms of the security settings"""
        th = eng.theory; z = th.eg; eng.prove('goes on only while the estimates stay within the norms of the security settings', z3.Not(z3.And(z.sec <= 0, z3.BoolVal(True) if th.count is None else th.count() >= 2, big(th, eng, R(th.last.get())), big(th, eng, R(th.before.get()))))); return eng.fresh('advance_code', Int)
    def big(th, eng, v): return th.norm(eng, NORMI, DEH(v)) > th.eg.maxnorm
    def begin(eng, flavor, kind):
        th = eng.theory; z = EG_(eng, flavor, kind); z.tol = R(z.config('EndgameConfig', 'final_tolerance')); z.sec = I(z.config('SecurityConfig', 'level')); z.maxnorm = R(z.config('SecurityConfig', 'max_norm')); th.last, th.before = Cell(eng, z3.Real('no_estimate'), 'last'), Cell(eng, z3.Real('no_estimate_before'), 'before'); th.count = None; z.smax = z3.IntVal(enum_value(eng.db, 'SuccessCode::SecurityMaxNormReached')); eng.assume(z3.And(z.tol > 0, z.tol < 1))
        z.fin, z.prev, z.err = (lambda: val(z.o.cell('final_approximation_').get())), (lambda: val(z.o.cell('previous_approximation_').get())), (lambda: R(z.o.cell('approximate_error_').get())); return th, z
    def finish(eng, th, z, code, strict):
        ok = code == z.ok; d = th.norm(eng, NORMI, R(th.last.get())-R(th.before.get())); eng.prove('success only when the last two estimates agree within the tolerance', z3.Implies(ok, d < z.tol if strict else d <= z.tol)); eng.prove('the estimate returned is the last one', z3.Implies(ok, z.fin() == R(th.last.get()))); eng.prove('the error reported is the difference of the last two', z3.Implies(ok, z.err() == d))
    for kind in KINDS:
        def run_c(eng, kind=kind):
            th, z = begin(eng, 'CauchyEndgame', kind); x = z3.Real('start_point'); th.last.set(x); n = z3.Int('dim')
            def invs(eng, k, outer):
                yield 'previous', z.prev() == R(th.last.get()); g = th.named(eng); v = g('norm_of_dehom_prev')
                if v is not None and not isinstance(v, Opaque): yield 'norm', z3.Implies(z.sec <= 0, R(v) == th.norm(eng, NORMI, DEH(R(th.last.get()))))
            th.invs = invs; th.init = None
            try: code = z.call('RunImpl', z3.Real('start_time'), vec(x, n), z3.Real('target_time'))
            except ThrowEx: return
            finish(eng, th, z, code, True); eng.prove('the estimate before is kept', z3.Implies(code == z.ok, z.prev() == R(th.before.get())))
            if th.fail is not None: eng.prove('a failed phase is reported', code == th.fail)
        def note(nm, secured=False):
            def c(eng, f, this, e):
                th = eng.theory; code = eng.fresh(nm, Int); b = pre(eng, f, this, e) if secured else None
                th.fail = code if eng.branch(code != th.eg.ok) else None
                return code
            return c
        class RunTheory(GTheory):
            cut = ('w',); udiv = umul = None; fail = None
        out.append(Group('Cauchy Run '+kind[0], [CA+'RunImpl'], run_c, RunTheory, setup=with_(eg_setup, GetIntoEGZone=note('zone_code'), InitialCauchyLoops=note('loop_code'), ComputeCauchySamples=note('samples_code'), ComputeCauchyApproximationOfXAtT0=estimate, AdvanceTime=note('advance_code', True))))
        def run_p(eng, kind=kind):
            th, z = begin(eng, 'PowerSeriesEndgame', kind); x = z3.Real('start_point'); n = z3.Int('dim'); th.cnt = Cell(eng, z3.IntVal(0), 'estimates'); th.count = lambda: I(th.cnt.get())
            def invs(eng, k, outer):
                yield 'previous', z.prev() == R(th.last.get()); yield 'latest', z.fin() == R(th.last.get()); yield 'counted', th.count() == 1+I(k); g = th.named(eng); v = g('norm_of_dehom_of_prev_approx')
                if v is not None and not isinstance(v, Opaque): yield 'norm', z3.Implies(z.sec <= 0, R(v) == th.norm(eng, NORMI, DEH(R(th.last.get()))))
                d = th.norm(eng, NORMI, R(th.last.get())-R(th.before.get())); yield 'error', z.err() == z3.If(I(k) == 0, 1, d); yield 'within the norms', z3.Or(z.sec > 0, I(k) == 0, z3.Not(big(th, eng, R(th.last.get()))), z3.Not(big(th, eng, R(th.before.get()))))
            th.invs = invs
            try: code = z.call('RunImpl', z3.Real('start_time'), vec(x, n), z3.Real('target_time'))
            except ThrowEx: return
            finish(eng, th, z, code, False)
            if th.fail is not None: eng.prove('a failed phase is reported', code == th.fail)
        def est_p(eng, f, this, e): r = estimate(eng, f, this, e); eng.theory.cnt.set(I(eng.theory.cnt.get())+1); eng.prove('at the target time', R(eng.rv(e['args'][1])) == z3.Real('target_time')); eng.theory.fail = r if eng.branch(r != eng.theory.eg.ok) else None; return r
        out.append(Group('PowerSeries Run '+kind[0], [PS+'RunImpl'], run_p, RunTheory, setup=with_(eg_setup, ComputeInitialSamples=note('initial_code'), RefineAllSamples=fresh_code('refine_code'), ComputeAllDerivatives=lambda eng, f, this, e: None, SetRandVec=lambda eng, f, this, e: None, ComputeApproximationOfXAtT0=est_p, AdvanceTime=note('advance_code', True))))
    return out
# ------------------------------------------------------------------ the power series endgame
POW = MD.PWR
ArrR = z3.ArraySort(Int, Real)
HER = z3.Function('interpolated', Real, Int, ArrR, ArrR, ArrR, Int, Real)             # (at, points, times, samples, derivatives, end)
SPT, SPD = z3.Function('s_times', Int, Real, Int, Int, ArrR), z3.Function('s_derivatives', Int, Real, Int, Int, ArrR)      # (cycle, t0, points, end)
class PTheory(GTheory):
    udiv = umul = None; name_solves = False
    def reset(s, eng): super().reset(eng); s.solves = []; s.cur = None; s.evals = []
    eigen = VecTheory.eigen
def pseg_groups():
    out = []
    def enums(eng): return [z3.IntVal(enum_value(eng.db, 'ContStart::'+x)) for x in ('Back', 'Front')]
    def begin(eng, kind, deriv=True):
        th = eng.theory; z = EG_(eng, 'PowerSeriesEndgame', kind); z.xs, z.ts, z.ds = z.c('samples'), z.c('times'), z.c('derivatives'); n = z.n('samples'); m = I(z.config('EndgameConfig', 'num_sample_points')); eng.assume(z3.And(z.n('times') == n, n >= m, m >= 1, n < 2**31))
        if deriv: eng.assume(z.n('derivatives') == n)
        return th, z, n, m, z.xs.get().arr[''], z.ts.get().arr[''], z.ds.get().arr['']
    for kind in KINDS:
        def run_adv(eng, kind=kind):
            th, z, n, m, x0, t0, d0 = begin(eng, kind); t1 = z3.Real('target_time'); f = R(z.config('EndgameConfig', 'sample_factor')); J = z3.Int('J')
            nt, nx = advance_spec(eng, z, f, None, None, A(t0, n-1), A(x0, n-1), t1); code = z.call('AdvanceTime', t1); ok = code == z.ok; few = z3.IntVal(enum_value(eng.db, 'SuccessCode::MinTrackTimeReached')); x1, s1 = z.xs.get().arr[''], z.ts.get().arr['']; early = toz(eng.lt(MD.absv(eng, nt-t1), z.config('EndgameConfig', 'min_track_time')), BoolS)
            k = z3.If(n+1 > m+1, 1, 0); eng.prove('stops where the time would pass the minimum', z3.If(early, code == few, z3.Or(ok, I(code) == I(th.last_code.get()), I(code) == I(th.code_of.get())))); eng.prove('the window keeps at most one more than the number of sample points', z3.Implies(ok, z3.And(z.n('samples') == n+1-k, z.n('times') == n+1-k))); eng.prove('time approaches the target by the sample factor', z3.Implies(ok, A(s1, n-k) == nt)); eng.prove('the sample is tracked from the last one and refined', z3.Implies(ok, A(x1, n-k) == REF(nx, nt)))
            eng.prove('the others keep their order', z3.Implies(z3.And(ok, J >= 0, J < n-k), z3.And(A(x1, J) == A(x0, J+k), A(s1, J) == A(t0, J+k))))
        def sample(eng, f, this, e): c = eng.lv(e['args'][0]); c.set(vec(REF(val(eng.rv(e['args'][1])), R(eng.rv(e['args'][2]))))); r = eng.fresh('refine_code', Int); eng.theory.code_of.set(r); return r
        class AdvTheory(GTheory):
            def reset(s, eng): super().reset(eng); s.code_of = Cell(eng, z3.Int('not_refined'), 'refined')
        out.append(Group('PowerSeries AdvanceTime '+kind[0], [PS+'AdvanceTime'], run_adv, AdvTheory, setup=with_(eg_setup, RefineSample=sample)))
        def run_der(eng, kind=kind):
            th, z, n, m, x0, t0, d0 = begin(eng, kind, False); J = z3.Int('J'); eng.assume(z3.And(J >= 0, J < n)); D = z3.Function('derivative', Int, Real)
            def fact(k): eng.fact(D(k) == -SOLVE(J_(A(x0, k), A(t0, k)), T_(A(x0, k), A(t0, k))))
            def invs(eng, k, outer): k = I(k); fact(k); yield 'k<=n', k <= n; yield 'size', z.n('derivatives') == n; yield 'J', z3.Implies(J < k, A(z.ds.get().arr[''], J) == D(J)); yield 'points', z3.And(z.xs.get().arr[''] == x0, z.ts.get().arr[''] == t0, z.n('samples') == n, z.n('times') == n)
            th.invs = invs; z.call('ComputeAllDerivatives'); eng.prove('dx/dt is minus the inverse Jacobian times dF/dt, at the sample and its time', A(z.ds.get().arr[''], J) == D(J)); eng.prove('one derivative for each sample', z.n('derivatives') == n)
        def sys_setup(eng):
            install_system(eng); C = dict(eng.contract_calls); eg_setup(eng); eng.contract_calls.update({k: v for k, v in C.items() if k.split('::')[-1] in ('Eval', 'Jacobian', 'TimeDerivative', 'SetAndReset', 'EvalInPlace', 'JacobianInPlace', 'TimeDerivativeInPlace')})
        out.append(Group('ComputeAllDerivatives '+kind[0], [PS+'ComputeAllDerivatives'], run_der, PTheory, setup=sys_setup))
        for back in (True, False):
            def run_tr(eng, kind=kind, back=back):
                th, z, n, m, x0, t0, d0 = begin(eng, kind); J, c, k0 = z3.Ints('J cycle points'); eng.assume(z3.And(k0 >= 1, k0 <= n, J >= 0, J < k0, c >= 0, c < 2**31)); u = z3.Real('target_time'); o = n-k0 if back else z3.IntVal(0); S, D = z3.Function('s_time', Int, Real), z3.Function('s_derivative', Int, Real); cr = z3.ToReal(c); shift = A(t0, o)-u
                def fact(k): eng.fact(S(k) == POW((A(t0, k+o)-u)/shift, 1/cr)); eng.fact(D(k) == A(d0, k+o)*(cr*toz(MD.power(eng, S(k), c-1), Real))*shift)
                def invs(eng, k, outer):
                    k = I(k); fact(k); yield 'k<=n', k <= k0; g = th.named(eng)
                    for nm, F in (('s_times', S), ('s_derivatives', D)):
                        r = g(nm)
                        if isinstance(r, Recs): yield nm, z3.And(I(r.n) == k0, z3.Implies(J < k, A(r.arr[''], J) == F(J)))
                th.invs = invs
                try: r = z.call('TransformToSPlane', c, u, k0, Enum(enum_value(eng.db, 'ContStart::'+('Back' if back else 'Front'))))
                except ThrowEx: eng.prove('refused only for cycle number zero', c == 0); return
                eng.prove('a cycle number', c != 0); a, b = [x.get() for x in r.cells]; eng.prove('s is the c-th root of the time, scaled', z3.And(I(a.n) == k0, A(a.arr[''], J) == S(J))); eng.prove('derivatives by the chain rule dx/ds = dx/dt c s^(c-1) scaled', z3.And(I(b.n) == k0, A(b.arr[''], J) == D(J)))
            out.append(Group('TransformToSPlane %s %s' % (kind[0], 'back' if back else 'front'), [PS+'TransformToSPlane'], run_tr, PTheory, setup=eg_setup))
        def transform(eng, f, this, e):
            th = eng.theory; z = th.eg; c, u, k, w = [eng.rv(x) for x in e['args'][:4]]; c, k, w = I(c), I(k), I(w); eng.prove('a cycle number', c >= 1); tp = Tup.__new__(Tup); tp.types = targs_of(strip_t(f['ret'])); tp.cells = [Cell(eng, x.but(n=k, **{'': F(c, R(u), k, w)}), 's') for x, F in ((z.ts.get(), SPT), (z.ds.get(), SPD))]; return tp
        def herm(eng, f, this, e):
            th = eng.theory; x, k, t, s_, d, w = [eng.rv(a) for a in e['args']]; k = I(k); eng.prove('enough points to interpolate', z3.And(I(t.n) >= k, I(s_.n) >= k, I(d.n) >= k, k >= 1)); th.used = k; return vec(HER(R(x), k, t.arr[''], s_.arr[''], d.arr[''], I(w)))
        def bound(eng, f, this, e):
            v = eng.fresh('bound', Int); eng.assume(z3.And(v >= 1, v < 2**31)); eng.theory.eg.o.cell('upper_bound_on_cycle_number_').set(v); eng.theory.ub = v; return v
        def run_cyc(eng, kind=kind):
            th, z, n, m, x0, t0, d0 = begin(eng, kind); back, front = enums(eng); u = z3.Real('target_time'); eng.assume(z3.And(m >= 2, n <= m+1)); Q = z3.Int('Q'); DF = z3.Function('misfit', Int, Real); th.used = None; k0 = z3.If(n > m, m, m-1); q = (A(t0, n-1)-u)/(A(t0, 0)-u); BEST = z3.Function('best_so_far', Int, Int)
            def fact(c): eng.fact(DF(c) == th.norm(eng, NORMI, HER(POW(q, 1/z3.ToReal(c)), k0, SPT(c, u, k0, front), x0, SPD(c, u, k0, front), front)-A(x0, n-1)))
            cyc = lambda: I(z.o.cell('cycle_number_').get())
            def invs(eng, k, outer):
                k = I(k); fact(k+1); g = th.named(eng); mn = g('min_found_difference'); yield 'k<=ub', k <= th.ub; yield 'bound', I(z.o.cell('upper_bound_on_cycle_number_').get()) == th.ub
                yield 'kept', z3.And(z.xs.get().arr[''] == x0, z.ts.get().arr[''] == t0, z.n('samples') == n, z.n('times') == n)
                if mn is not None and not isinstance(mn, Opaque): th.min = R(mn); yield 'a candidate', z3.Or(k == 0, z3.And(cyc() >= 1, cyc() <= k, th.min == DF(cyc()))); yield 'least', z3.Implies(z3.And(Q >= 1, Q <= k), th.min <= DF(Q)); yield 'start', z3.Implies(k == 0, th.min == th.highest)
                eng.assume(DF(k+1) < th.highest)
            th.invs = invs; r = I(z.call('ComputeCycleNumber', u)); eng.prove('the cycle number found is a candidate', z3.And(r >= 1, r <= th.ub)); eng.prove('it is remembered', cyc() == r); eng.prove('no candidate predicts the last sample better', z3.Implies(z3.And(Q >= 1, Q <= th.ub), DF(r) <= DF(Q)))
            eng.prove('the last sample is not among those it is predicted from', k0 < n)
        class CycTheory(PTheory):
            highest = z3.Real('highest')
        def cyc_setup(eng):
            with_(eg_setup, TransformToSPlane=transform, HermiteInterpolateAndSolve=herm, ComputeBoundOnCycleNumber=bound)(eng)
            eng.contract_calls['Eigen::NumTraits::highest'] = lambda eng, f, this, e: eng.theory.highest
            for q in eng.db.byq:
                if q.endswith('::highest'): eng.contract_calls[q] = lambda eng, f, this, e: eng.theory.highest
        out.append(Group('ComputeCycleNumber '+kind[0], [PS+'ComputeCycleNumber'], run_cyc, CycTheory, setup=cyc_setup))
        def cycle(eng, f, this, e): c = eng.fresh('cycle', Int); eng.assume(c >= 1); eng.theory.eg.o.cell('cycle_number_').set(c); eng.theory.cyc = c; return c
        def run_app(eng, kind=kind):
            th, z, n, m, x0, t0, d0 = begin(eng, kind); back, front = enums(eng); u = z3.Real('target_time'); res = Cell(eng, vec(z3.Real('result0')), 'result'); code = z.call('ComputeApproximationOfXAtT0', res, u); c = th.cyc
            eng.prove('the interpolant through the last samples, in the s plane of the cycle number, at s = 0', z3.Implies(code == z.ok, val(res.get()) == HER(z3.RealVal(0), m, SPT(c, u, m, back), x0, SPD(c, u, m, back), back))); eng.prove('never fails', code == z.ok)
        out.append(Group('PowerSeries ComputeApproximationOfXAtT0 '+kind[0], [PS+'ComputeApproximationOfXAtT0'], run_app, PTheory, setup=with_(eg_setup, TransformToSPlane=transform, HermiteInterpolateAndSolve=herm, ComputeCycleNumber=cycle)))
    return out
def zone_groups():
    out = []
    for kind in KINDS:
        def run_ref(eng, kind=kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); x, t = z3.Reals('sample time'); res = Cell(eng, vec(z3.Real('result0')), 'result'); code = z.call('RefineSampleImpl', res, vec(x), t, z3.Real('tolerance'), z3.Int('iterations')); eng.prove('the sample refined at its own time, at whatever precision', val(res.get()) == REF(x, t))
            if kind[0] == 'adaptive': eng.prove('the code is that of the last refinement', I(code) == I(th.refine_code))
        class RefTheory(GTheory):
            refine_code = None
            def refined(s, r): s.refine_code = r
        out.append(Group('RefineSampleImpl '+kind[0], [EG+('AMPEndgame' if kind[0] == 'adaptive' else 'FixedPrecEndgame')+'::RefineSampleImpl'], run_ref, RefTheory, setup=eg_setup))
        def initial(eng, f, this, e):
            th = eng.theory; z = th.eg; code = eng.fresh('initial_code', Int); m = I(z.config('EndgameConfig', 'num_sample_points')); th.fail = code if eng.branch(code != z.ok) else None
            for i in (3, 4): c = eng.lv(e['args'][i]); q = c.get(); c.set(q.but(n=z3.If(code == z.ok, m, eng.fresh('part', Int)), **{'': eng.fresh('initial', q.arr[''].sort())}))
            return code
        def advance(eng, f, this, e):
            th = eng.theory; z = th.eg; code = eng.fresh('advance_code', Int); th.fail = code if eng.branch(code != z.ok) else None; eng.prove('a last sample to go on from', z3.And(z.n('pseg_times') >= 1, z.n('pseg_samples') == z.n('pseg_times')))
            for n in ('pseg_times', 'pseg_samples'): c = z.c(n); c.set(c.get().but(**{'': eng.fresh('advanced', c.get().arr[''].sort())}))
            return code
        def run_zone(eng, kind=kind):
            th = eng.theory; z = EG_(eng, 'CauchyEndgame', kind); m = I(z.config('EndgameConfig', 'num_sample_points')); eng.assume(z3.And(m >= 3, m < 2**20)); need = I(z.config('CauchyConfig', 'num_needed_for_stabilization')); eng.assume(need < 2**30); th.fail = None
            def invs(eng, k, outer):
                g = th.named(eng); ck = g('c_over_k'); yield 'window', z3.And(z.n('pseg_times') == m, z.n('pseg_samples') == m)
                if isinstance(ck, Recs):
                    n = I(ck.n); ii = g('ii')
                    yield 'estimates', n == 1+I(k); yield 'enough estimates', n == 1+need; yield 'k<=need', I(k) <= need
            th.invs = invs
            try: code = z.call('GetIntoEGZone', z3.Real('start_time'), vec(z3.Real('start_point')), z3.Real('target_time'))
            except ThrowEx: return
            ok = code == z.ok; eng.prove('as many samples as asked for', z3.Implies(ok, z3.And(z.n('pseg_times') == m, z.n('pseg_samples') == m)))
            if th.fail is not None: eng.prove('a failed phase is reported', code == th.fail)
            else: eng.prove('success when every phase succeeded', ok)
        def stable(eng, f, this, e): q = eng.rv(e['args'][0]); eng.prove('enough estimates to compare', I(q.n) == 1+I(eng.theory.eg.config('CauchyConfig', 'num_needed_for_stabilization'))); return eng.fresh('stable', BoolS)
        class ZoneTheory(GTheory): fail = None
        out.append(Group('GetIntoEGZone '+kind[0], [CA+'GetIntoEGZone'], run_zone, ZoneTheory, setup=with_(eg_setup, ComputeInitialSamples=initial, AdvanceTime=advance, ComputeCOverK=lambda eng, f, this, e: eng.fresh('c_over_k', Real), CheckForCOverKStabilization=stable)))
    return out
def endgame_groups(): return hermite_groups()+sample_groups()+cauchy_groups()+loop_groups()+run_groups()+pseg_groups()+zone_groups()
