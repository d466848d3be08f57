"""P19: which paths are followed, where results are filed, which paths are flagged as crossed, multiplicities.
Everything is stated for an arbitrary path P; the loops over paths are cut by invariants about P."""
import z3
from engine.symex import *
from engine.verify import Group
from engine.arrtheory import *
from engine.vectheory import VecTheory, vec, val, enum_value, NORMI, NORM2
from .nodes import find1
AL = 'bertini::algorithm::'
P, N = z3.Int('P'), z3.Int('number_of_paths')
PT, ST = z3.Array('point', Int, Real), z3.Array('start', Int, Real)
CODE = z3.Array('success_code', Int, Int)
from .mhom import MTheory
class STheory(MTheory):
    """vectors are elements of a vector space (one term each)"""
    cut = bare = ()
    def reset(s, eng): ArrTheory.reset(s, eng); s.own = []; s.sinv = None; s.gh = {}; s.elems = None; eng.solver.set("smt.mbqi.max_iterations", 8); eng.solver.set("smt.arith.nl", False)
    def norm(s, eng, f, v):
        n = z3.simplify(-v); r = f(v); eng.fact(r >= 0); eng.fact(f(n) == r); return r
    def mat_fn(s, eng, n, m, f):
        if n == 'norm': return s.norm(eng, NORM2, val(m))
        if n == 'lpNorm':
            t = str(f.get('targs')) + f['key']
            if '-1' in t.split('lpNorm')[-1]: return s.norm(eng, NORMI, val(m))
            if '<2>' in t.split('lpNorm')[-1]: return s.norm(eng, NORM2, val(m))
        raise Unsupported('matrix '+n)
def recs(eng, cls, n, wrap={}, **arr):
    r = Recs(cls, n, arr); r.wrap = {k: (lambda t: vec(t), lambda m: val(m)) for k in wrap}; return r
def insts(db, pre, suf):
    return sorted(q for q in db.byq if q.startswith(AL+pre) and q.endswith(suf))
def label(q): return ('adaptive' if 'AMPTracker' in q else 'multiple' if 'mpc_complex' in q or 'MultiplePrecision' in q else 'double')+(' power series' if 'PowerSeries' in q else ' cauchy' if 'Cauchy' in q else '')
def midpath_groups(db=None):
    out = []
    for kind, ct in (('double', 'std::complex<double>'), ('multiple', 'mpc_complex')):
        def run(eng, kind=kind, ct=ct):
            th = eng.theory; q = [x for x in insts(eng.db, 'MidpathChecker<', '>::Check') if ct in x][0]; cls = find1(eng.db, q)['cls']; qc = q[:-len('::Check')]; ok = z3.IntVal(enum_value(eng.db, 'SuccessCode::Success'))
            o = Obj(eng, cls); start = Obj(eng, 'bertini::start_system::TotalDegree'); eng.assume(z3.And(N >= 0, P >= 0, P < N, ok == ok))
            th.pos = Cell(eng, z3.K(Int, z3.IntVal(-1)), 'position'); A = lambda a, i: z3.Select(a, i)
            cp = recs(eng, cls+'::CrossedPath', eng.fresh('listed', Int), index_=z3.Array('index0', Int, Int), rerun_=z3.Array('rerun0', Int, BoolS)); eng.assume(cp.n >= 0)
            def push(eng, r, x): th.pos.set(z3.Store(th.pos.get(), I(x.cell('index_').get()), I(r.n)))
            cp.on_push = push; o.f['crossed_paths_'] = Cell(eng, cp, 'crossed_paths_'); C = o.f['crossed_paths_']; passed = o.cell('passed_')
            bcls = [x for x in eng.db.rec if x.startswith(AL+'EGBoundaryMetaData<') and ct in x][0] if hasattr(eng.db, 'rec') else AL+'EGBoundaryMetaData'
            data = Cell(eng, recs(eng, bcls, N, wrap=('path_point',), path_point=PT, success_code=CODE), 'boundary_data')
            tol = R(eng.call_fn(find1(eng.db, qc+'::SamePointTol'), o, []).get()); good = lambda i: A(CODE, i) == ok
            D = lambda i, j: z3.And(good(j), th.norm(eng, NORMI, A(PT, i)-A(PT, j))/NORMI(A(PT, i)) < tol); S = lambda i, j: th.norm(eng, NORMI, A(ST, i)-A(ST, j)) < tol
            HB, HA, RB, RA, ALL = [z3.Function(x, Int, BoolS) for x in ('met_by_earlier', 'meets_later', 'rerun_by_earlier', 'rerun_by_later', 'crossing_in_rows')]; ROW = z3.Function('crossing_in_row', Int, Int, BoolS)
            AT = z3.Function('considered', Int, BoolS); eng.fact(AT(P))
            for F in (HB, RB, ALL): eng.fact(z3.Not(F(0)))
            eng.fact(z3.Not(HA(P+1))); eng.fact(z3.Not(RA(P+1)))
            X = lambda i, j: z3.And(good(i), D(i, j)); Y = lambda i, j: z3.And(X(i, j), z3.Not(S(i, j)))
            def rows(i):
                eng.fact(HB(i+1) == z3.Or(HB(i), z3.And(i < P, X(i, P)))); eng.fact(RB(i+1) == z3.Or(RB(i), z3.And(i < P, Y(i, P)))); eng.fact(ALL(i+1) == z3.Or(ALL(i), z3.And(good(i), ROW(i, N)))); eng.fact(z3.Not(ROW(i, i+1)))
            def cols(i, j):
                eng.fact(z3.Implies(j > P, HA(j+1) == z3.Or(HA(j), D(P, j)))); eng.fact(z3.Implies(j > P, RA(j+1) == z3.Or(RA(j), z3.And(D(P, j), z3.Not(S(P, j)))))); eng.fact(z3.Implies(j > i, ROW(i, j+1) == z3.Or(ROW(i, j), D(i, j))))
            a, p = z3.Ints('a! p!')
            QX = z3.Int('no_path'); eng.assume(z3.Or(QX < 0, QX >= N))
            def listed(x=None): w = A(th.pos.get(), P); return w >= 0
            def rerun(): return A(C.get().arr['rerun_'], A(th.pos.get(), P))
            def container(k):
                r, pos = C.get(), th.pos.get(); n = I(r.n); idx = r.arr['index_']
                yield 'positions', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), A(pos, A(idx, a)) == a), patterns=[A(idx, a)]); yield 'range', A(pos, QX) == -1; yield 'listed once', z3.ForAll([p], z3.Or(z3.Not(AT(p)), A(pos, p) == -1, z3.And(A(pos, p) >= 0, A(pos, p) < n, A(idx, A(pos, p)) == p)), patterns=[AT(p)])
            def state(h, r, al): yield 'listed', listed() == h; yield 'rerun listed', z3.Implies(r, h); yield 'rerun', z3.Implies(listed(), rerun() == r); yield 'passed', toz(passed.get(), BoolS) == z3.Not(al)
            def inner(i, j): rows(i); cols(i, j); return (z3.Or(HB(i), z3.And(i > P, good(P), HA(N)), z3.And(P == i, HA(j)), z3.And(i < P, P < j, X(i, P))), z3.Or(RB(i), z3.And(i > P, good(P), RA(N)), z3.And(P == i, RA(j)), z3.And(i < P, P < j, Y(i, P))), z3.Or(ALL(i), ROW(i, j)))
            def outer_(k): rows(k); return (z3.Or(HB(k), z3.And(k > P, good(P), HA(N))), z3.Or(RB(k), z3.And(k > P, good(P), RA(N))), ALL(k))
            def invs(eng, k, outer):
                k = I(k)
                if len(outer) == 0: yield 'k<=n', k <= N; yield from container(k); yield from state(*outer_(k)); return
                i = I(outer[0]); eng.fact(AT(i))
                if len(outer) == 1: j = i+1+k; eng.fact(AT(j)); yield 'k<=n', z3.Or(k == 0, j <= N); yield from container(k); yield from state(*inner(i, j)); return
                j = i+1+I(outer[1]); eng.fact(AT(j)); g = th.named(eng); yield 'k<=n', k <= I(C.get().n); yield from container(k); h, r, al = inner(i, j); pos = th.pos.get(); w = A(pos, P)
                yield 'listed', listed() == h; yield 'rerun listed', z3.Implies(r, h); yield 'passed', toz(passed.get(), BoolS) == z3.Not(al); yield 'rerun', z3.Implies(listed(), rerun() == z3.If(z3.And(z3.Or(P == i, P == j), w < k), z3.Or(r, z3.Not(S(i, j))), r))
                for nm, x in (('i_already_stored', i), ('j_already_stored', j)):
                    try: b = g(nm)
                    except Exception: b = None
                    if b is not None: yield nm, toz(b, BoolS) == z3.And(A(pos, x) >= 0, A(pos, x) < k)
            th.invs = invs
            r = eng.call_fn(find1(eng.db, q), o, [data, Cell(eng, start)])
            r = r.get() if isinstance(r, (Cell, FnCell, Val)) else r; eng.prove('the result is whether no two paths cross', toz(r, BoolS) == z3.Not(ALL(N))); eng.prove('remembered', toz(passed.get(), BoolS) == toz(r, BoolS))
            H = z3.Or(HB(N), z3.And(good(P), HA(N))); eng.prove('exactly the crossed paths are listed', listed() == H); eng.prove('flagged for retracking exactly if some crossed path started elsewhere', z3.Implies(H, rerun() == z3.Or(RB(N), z3.And(good(P), RA(N)))))
            for nm, c in container(N): eng.prove(nm, c)
            a1 = z3.Int('a1'); eng.prove('only paths of this solve are listed', z3.Implies(z3.And(a1 >= 0, a1 < I(C.get().n)), A(C.get().arr['index_'], a1) != QX))
        def setup(eng):
            eng.contract_calls['bertini::start_system::StartSystem::StartPoint'] = lambda eng, f, this, e: vec(z3.Select(ST, I(eng.rv(e['args'][0]))))
        out.append(Group('MidpathChecker::Check '+kind, [AL+'MidpathChecker::Check'], run, STheory, setup=setup))
    return out
# ------------------------------------------------------------------ the solver object
KINDS = [('double', 'ZeroDim<bertini::tracking::DoublePrecisionTracker', 'CauchyEndgame'), ('adaptive', 'ZeroDim<bertini::tracking::AMPTracker', 'CauchyEndgame')]
class Solver:
    """the state of a ZeroDim object: per-path containers as arrays over the path"""
    VECS = ('path_point',)
    def __init__(s, eng, kind):
        s.eng = eng; s.q = [x for x in insts(eng.db, kind[1], '::ComputeMultiplicities') if kind[2] in x][0][:-len('::ComputeMultiplicities')]; s.cls = find1(eng.db, s.q+'::ComputeMultiplicities')['cls']
        s.o = o = Obj(eng, s.cls); o.f['num_start_points_'] = Cell(eng, N, 'num_start_points_'); s.ok = z3.IntVal(enum_value(eng.db, 'SuccessCode::Success'))
        for name, key in (('solution_final_metadata_', 'meta'), ('solutions_at_endgame_boundary_', 'bdry'), ('solutions_post_endgame_', 'post')):
            t = strip_t(eng.field_type(s.cls, name)); et = strip_t(targs_of(t)[0]); c = Cell(eng, s.container(et, key), name); o.f[name] = c; setattr(s, key, c)
    def container(s, et, key):
        eng = s.eng; sz = eng.fresh('size_'+key, Int); eng.assume(sz >= 0)
        if et.startswith('Eigen::Matrix<'): r = recs(eng, None, sz, wrap=('',), **{'': z3.Array(key, Int, Real)}); r.init = lambda x: None; return r
        arr, wrap = {}, []
        for f in eng.db.record(et)['fields']:
            t = strip_t(f['t'])
            if t.startswith('Eigen::Matrix<'): wrap.append(f['name'])
            arr[f['name']] = z3.Array(key+'.'+f['name'], Int, BoolS if t == 'bool' else Int if t in INT_T or t.endswith('SuccessCode') else Real)
        r = recs(eng, et, sz, wrap=wrap, **arr); r.init = s.defaults(et, arr); return r
    def defaults(s, et, arr):
        """what a new element holds: the default member initializers of its class; anything else is arbitrary"""
        short = et.split('<')[0]; rec = s.eng.db.record(et); c = [f for q in s.eng.db.byq if q.startswith(short+'<') and q.endswith('>::'+short.split('::')[-1]) for f in s.eng.db.byq[q] if not f['params'] and s.eng.db.record(f['cls']) is rec]; ini = {i['field']: i['e'] for f in c for i in f.get('inits', []) if i.get('field')}
        def init(x):
            e = ini.get(x)
            if e is None or arr[x].range() == Real: return None
            return s.eng.rv(e)
        return init
    def at(s, key, name, i): return z3.Select(getattr(s, key).get().arr[name], i)
    def config(s, cls, name):
        f = [f for q in s.eng.db.byq for f in s.eng.db.byq[q] if q.endswith('::Get') and (f.get('targs') or [''])[0].split('<')[0].split('::')[-1] == cls and 'Configured<' in q and f.get('cls') in s.eng.db.bases(s.cls)][0]; return s.eng.call_fn(f, s.o, []).get().cell(name).get()
    def call(s, name, *args): f = [x for x in s.eng.db.find(s.q+'::'+name)][0]; return s.eng.call_fn(f, s.o, [Cell(s.eng, a) for a in args])
def multiplicity_groups():
    out = []
    for kind in KINDS:
        def run(eng, kind=kind):
            th = eng.theory; z = Solver(eng, kind); eng.assume(z3.And(N >= 0, P >= 0, P < N)); 
            for c in (z.meta, z.post): c.set(c.get().but(n=N))
            E0 = z.meta.get().arr['endgame_success']; E = lambda i: z3.Select(E0, i) == z.ok
            tol = R(z.config('PostProcessingConfig', 'same_point_tolerance')); near = lambda i, j: z3.And(E(j), th.norm(eng, NORM2, z.at('post', '', i)-z.at('post', '', j)) < tol)
            BC, AC = [z3.Function(x, Int, Int) for x in ('equal_earlier', 'equal_later')]; eng.fact(BC(0) == 0); eng.fact(AC(P+1) == 0); M = lambda: z.at('meta', 'multiplicity', P); m0 = M(); one = lambda c: z3.If(c, 1, 0)
            def rows(i): eng.fact(BC(i+1) == BC(i)+one(z3.And(i < P, E(i), near(i, P))))
            def invs(eng, k, outer):
                k = I(k)
                if len(outer) == 0: rows(k); yield 'k<=n', k <= N; yield 'counted', M() == m0+BC(k)+z3.If(z3.And(k > P, E(P)), AC(N), 0)
                else:
                    i = I(outer[0]); j = i+1+k; rows(i); eng.fact(z3.Implies(j > P, AC(j+1) == AC(j)+one(near(P, j)))); yield 'k<=n', z3.Or(k == 0, j <= N)
                    yield 'counted', M() == m0+BC(i)+z3.If(P == i, AC(j), z3.If(i > P, z3.If(E(P), AC(N), 0), one(z3.And(P < j, near(i, P)))))
                
                for x, a in z.meta.get().arr.items():
                    if x != 'multiplicity': yield 'kept '+x, a == first[x]
            first = dict(z.meta.get().arr); th.invs = invs
            z.call('ComputeMultiplicities'); eng.prove('the multiplicity grows by the number of other successful end points within the tolerance', M() == m0+BC(N)+z3.If(E(P), AC(N), 0))
            for k in z.meta.get().arr:
                if k != 'multiplicity': eng.prove('left alone: '+k, z.at('meta', k, P) == z3.Select(first[k], P))
        out.append(Group('ComputeMultiplicities '+kind[0], [AL+'ZeroDim::ComputeMultiplicities'], run, STheory, setup=lambda eng: None))
    return out
TK = 'bertini::tracking::'
FVAL, DEH = z3.Function('target_system_at', Real, Real), z3.Function('dehomogenized', Real, Real)
class RTheory(STheory):
    """tracker, endgame and recorders through their contracts; ghost: what they were called with"""
    def reset(s, eng):
        super().reset(eng); s.obs = {}; s.tracks = []; s.runs = []; s.start_prec = None
        for n, srt in (('tol', Real), ('reinit', BoolS), ('step', Real), ('cur_step', Real), ('first_inc', BoolS), ('maxp', Int), ('minp', Int)): setattr(s, n, Cell(eng, z3.Const('ghost_'+n, srt), n))
    def recorders(s, eng, z):
        """what a recorder knows after the tracker moved: only what happened since it was reset, and only if it was attached"""
        f, m = z.o.cell('first_prec_rec_').get(), z.o.cell('min_max_prec_').get()
        if s.start_prec is None: return
        eng.prove('the recorders start at the initial precision', z3.And(I(s.maxp.get()) == I(s.start_prec), I(s.minp.get()) == I(s.start_prec))); eng.prove('the precision range is recorded', m.uid in s.obs)
        s.maxp.set(eng.fresh('highest_precision', Int)); s.minp.set(eng.fresh('lowest_precision', Int))
        if f.uid in s.obs: eng.prove('the first increase is looked for from the start', z3.Not(toz(s.first_inc.get(), BoolS))); s.first_inc.set(eng.fresh('increased', BoolS))
def run_setup(eng):
    C = eng.contract_calls; th = lambda: eng.theory; a = lambda e, i: eng.rv(e['args'][i])
    def obs(add):
        def c(eng, f, this, e):
            o = eng.lv(e['args'][0]); o = o.get() if not isinstance(o, Obj) else o
            if add: th().obs[o.uid] = 1
            else: th().obs.pop(o.uid, None)
        return c
    C['bertini::Observable::AddObserver'], C['bertini::Observable::RemoveObserver'] = obs(1), obs(0)
    C['bertini::DefaultPrecision'] = lambda eng, f, this, e: th().prec.set(a(e, 0)) if e['args'] else th().prec.get()
    def prec(eng, f, this, e):
        if len(e['args']) > 1: eng.rv(e['args'][1]); return None
        return z3.Function('digits_of', Real, Int)(val(a(e, 0)))
    C['bertini::Precision'] = prec
    C['bertini::System::precision'] = lambda eng, f, this, e: None
    C['bertini::start_system::StartSystem::StartPoint'] = lambda eng, f, this, e: vec(z3.Select(ST, I(a(e, 0))))
    C['bertini::System::Eval'] = lambda eng, f, this, e: vec(FVAL(val(a(e, 0))))
    C['bertini::System::DehomogenizePoint'] = lambda eng, f, this, e: vec(DEH(val(a(e, 0))))
    for q in eng.db.byq:
        if q.startswith('bertini::policy::CloneGiven<') and q.split('::')[-1] in ('StartSystem', 'TargetSystem', 'Homotopy'): C[q] = lambda eng, f, this, e, n=q.split('::')[-1]: th().system(eng, n)
        n = q.split('::')[-1]
        if q.startswith(TK+'FirstPrecisionRecorder'):
            if n == 'Reset': C[q] = lambda eng, f, this, e: th().first_inc.set(z3.BoolVal(False) if not eng.prove('reset to the starting precision', I(a(e, 0)) == I(th().start_prec)) or True else None)
            if n == 'DidPrecisionIncrease': C[q] = lambda eng, f, this, e: th().first_inc.get()
            if n == 'TimeOfIncrease': C[q] = lambda eng, f, this, e: z3.Real('time_of_increase')
        if q.startswith(TK+'MinMaxPrecisionRecorder') and n in ('MaxPrecision', 'MinPrecision'):
            C[q] = lambda eng, f, this, e, c=n[:3].lower()+'p': getattr(th(), c).set(a(e, 0)) if e['args'] else getattr(th(), c).get()
        if q.startswith(TK+'Tracker<'):
            if n == 'SetTrackingTolerance': C[q] = lambda eng, f, this, e: th().tol.set(R(a(e, 0)))
            if n == 'ReinitializeInitialStepSize': C[q] = lambda eng, f, this, e: th().reinit.set(toz(a(e, 0), BoolS))
            if n == 'SetStepSize': C[q] = lambda eng, f, this, e: th().step.set(R(a(e, 0)))
            if n == 'CurrentStepsize': C[q] = lambda eng, f, this, e: th().cur_step.get()
            if n in ('LatestConditionNumber', 'LatestNormOfStep'): C[q] = lambda eng, f, this, e, n=n: z3.Real(n)
            if n == 'TrackPath':
                def track(eng, f, this, e):
                    c = eng.lv(e['args'][0]); x = [a(e, i) for i in (1, 2, 3)]; r, code = eng.fresh('end_point', Real), eng.fresh('code', Int); c.set(vec(r)); th().cur_step.set(eng.fresh('last_step', Real)); th().recorders(eng, th().z); th().tracks.append((R(x[0]), R(x[1]), val(x[2]), r, code)); return code
                C[q] = track
        if q.startswith('bertini::endgame::EndgameBase<') or q.startswith('bertini::endgame::') and n == 'Run':
            if n == 'Run':
                def run(eng, f, this, e):
                    x = [a(e, i) for i in range(3)]; code = eng.fresh('endgame_code', Int); th().recorders(eng, th().z); th().runs.append((R(x[0]), val(x[1]), R(x[2]), code)); return code
                C[q] = run
            if n in ('FinalApproximation', 'PreviousApproximation'): C[q] = lambda eng, f, this, e, n=n: vec(z3.Real(n))
            if n in ('ApproximateError', 'LatestTime'): C[q] = lambda eng, f, this, e, n=n: z3.Real(n)
            if n == 'CycleNumber': C[q] = lambda eng, f, this, e: z3.Int('CycleNumber')
def same_except(eng, z, key, s_, names, before):
    """arrays of a container: changed at the index s_ in the named fields only"""
    for k, a0 in before.items():
        a1 = getattr(z, key).get().arr[k]; j = z3.Int('other')
        if k in names: eng.prove('%s %s of other paths' % (key, k), z3.Implies(j != s_, z3.Select(a1, j) == z3.Select(a0, j)))
        else: eng.prove('%s %s' % (key, k), z3.Select(a1, j) == z3.Select(a0, j))
BEFORE_META = ('path_index', 'solution_index', 'pre_endgame_success', 'precision_changed', 'time_of_first_prec_increase', 'max_precision_used')
DURING_META = ('endgame_success', 'precision_changed', 'time_of_first_prec_increase', 'max_precision_used', 'function_residual', 'final_time_used', 'condition_number', 'newton_residual', 'accuracy_estimate', 'accuracy_estimate_user_coords', 'cycle_num')
def begin(eng, kind):
    th = eng.theory; z = Solver(eng, kind); th.z = z; th.adaptive = kind[0] == 'adaptive'; sys = {}
    def system(eng, n):
        if n not in sys: sys[n] = Obj(eng, 'bertini::start_system::TotalDegree' if n == 'StartSystem' else 'bertini::System')
        return Val(sys[n])
    th.system = system; eng.assume(z3.And(N >= 0, P >= 0, P < N))
    for c in (z.meta, z.bdry, z.post): c.set(c.get().but(n=N))
    return z
def path_groups():
    out = []
    for kind in KINDS:
        def run_b(eng, kind=kind):
            z = begin(eng, kind); th = eng.theory; s_ = z3.Int('soln_ind'); eng.assume(z3.And(s_ >= 0, s_ < N)); m0, b0, p0 = dict(z.meta.get().arr), dict(z.bdry.get().arr), dict(z.post.get().arr); zc = lambda n: z.config('ZeroDimConfig', n)
            if th.adaptive: th.start_prec = zc('initial_ambient_precision')
            z.call('TrackSinglePathBeforeEG', s_); eng.prove('one path is tracked', len(th.tracks) == 1); t0, t1, x, r, code = th.tracks[0]; at = lambda k, n: z3.Select(getattr(z, k).get().arr[n], s_)
            eng.prove('from the start time', t0 == R(zc('start_time'))); eng.prove('to the endgame boundary', t1 == R(zc('endgame_boundary'))); eng.prove('from the start point of that number', x == z3.Select(ST, s_))
            eng.prove('its end point is stored', at('bdry', 'path_point') == r); eng.prove('its code is stored', at('bdry', 'success_code') == code); eng.prove('its step size is stored', at('bdry', 'last_used_stepsize') == R(th.cur_step.get()))
            eng.prove('path index', at('meta', 'path_index') == s_); eng.prove('solution index', at('meta', 'solution_index') == s_); eng.prove('code in the metadata', at('meta', 'pre_endgame_success') == code)
            if th.adaptive:
                eng.prove('precision changed', at('meta', 'precision_changed') == z3.Or(z3.Select(m0['precision_changed'], s_), toz(th.first_inc.get(), BoolS))); mx, old = I(th.maxp.get()), z3.Select(m0['max_precision_used'], s_); eng.prove('highest precision', at('meta', 'max_precision_used') == z3.If(mx > old, mx, old)); eng.prove('the range is no longer recorded', z.o.cell('min_max_prec_').get().uid not in th.obs)
            same_except(eng, z, 'meta', s_, BEFORE_META, m0); same_except(eng, z, 'bdry', s_, tuple(b0), b0); same_except(eng, z, 'post', s_, (), p0)
        out.append(Group('TrackSinglePathBeforeEG '+kind[0], [AL+'ZeroDim::TrackSinglePathBeforeEG'], run_b, RTheory, setup=run_setup))
        def run_d(eng, kind=kind):
            z = begin(eng, kind); th = eng.theory; s_ = z3.Int('soln_ind'); eng.assume(z3.And(s_ >= 0, s_ < N)); m0, b0, p0 = dict(z.meta.get().arr), dict(z.bdry.get().arr), dict(z.post.get().arr); zc = lambda n: z.config('ZeroDimConfig', n); pt = z3.Select(b0['path_point'], s_)
            if th.adaptive: th.start_prec = z3.Function('digits_of', Real, Int)(pt)
            z.call('TrackSinglePathDuringEG', s_); eng.prove('one endgame is run', len(th.runs) == 1); t0, x, t1, code = th.runs[0]; at = lambda k, n: z3.Select(getattr(z, k).get().arr[n], s_); fin, prev = z3.Real('FinalApproximation'), z3.Real('PreviousApproximation')
            eng.prove('from the endgame boundary', t0 == R(zc('endgame_boundary'))); eng.prove('to the target time', t1 == R(zc('target_time'))); eng.prove('from the point of that path at the boundary', x == pt); eng.prove('with its step size', z3.And(R(th.step.get()) == z3.Select(b0['last_used_stepsize'], s_), z3.Not(toz(th.reinit.get(), BoolS))))
            eng.prove('the end point is stored', at('post', '') == fin); eng.prove('its code is stored', at('meta', 'endgame_success') == code); eng.prove('residual', at('meta', 'function_residual') == th.norm(eng, NORMI, FVAL(fin))); eng.prove('accuracy', at('meta', 'accuracy_estimate') == z3.Real('ApproximateError')); eng.prove('accuracy in user coordinates', at('meta', 'accuracy_estimate_user_coords') == th.norm(eng, NORMI, DEH(fin)-DEH(prev))); eng.prove('cycle number', at('meta', 'cycle_num') == z3.Int('CycleNumber')); eng.prove('condition number', at('meta', 'condition_number') == z3.Real('LatestConditionNumber')); eng.prove('size of the last step', at('meta', 'newton_residual') == z3.Real('LatestNormOfStep')); eng.prove('time', at('meta', 'final_time_used') == z3.Real('LatestTime'))
            if th.adaptive:
                was = z3.Select(m0['precision_changed'], s_); eng.prove('precision changed', at('meta', 'precision_changed') == z3.Or(was, toz(th.first_inc.get(), BoolS))); mx, old = I(th.maxp.get()), z3.Select(m0['max_precision_used'], s_); eng.prove('highest precision', at('meta', 'max_precision_used') == z3.If(mx > old, mx, old)); eng.prove('nothing is recorded any more', len(th.obs) == 0)
            same_except(eng, z, 'meta', s_, DURING_META, m0); same_except(eng, z, 'bdry', s_, (), b0); same_except(eng, z, 'post', s_, ('',), p0)
        out.append(Group('TrackSinglePathDuringEG '+kind[0], [AL+'ZeroDim::TrackSinglePathDuringEG'], run_d, RTheory, setup=run_setup))
    return out
# ------------------------------------------------------------------ all paths
class Counts:
    """ghost: how often each path was tracked and taken to the endgame"""
    def __init__(s, eng): s.track, s.eg = Cell(eng, z3.K(Int, z3.IntVal(0)), 'tracks'), Cell(eng, z3.K(Int, z3.IntVal(0)), 'endgames'); s.resolves, s.last, s.fresh, s.sysprec = Cell(eng, z3.IntVal(0), 'resolves'), Cell(eng, z3.BoolVal(False), 'last_check'), Cell(eng, z3.BoolVal(False), 'check_is_fresh'), Cell(eng, z3.Int('start_system_digits'), 'sysprec')
    def bump(s, c, i): c.set(z3.Store(c.get(), i, z3.Select(c.get(), i)+1))
def upd(eng, c, i, **fields):
    q = c.get(); c.set(q.but(**{(k if k != '_' else ''): z3.Store(q.arr[k if k != '_' else ''], i, eng.fresh('new_'+k, q.arr[k if k != '_' else ''].range()) if v is None else v) for k, v in fields.items()}))
def before_c(eng, f, this, e):
    """contract of TrackSinglePathBeforeEG (proved above)"""
    th = eng.theory; z = th.z; i = I(eng.rv(e['args'][0])); eng.prove('a path of this solve', z3.And(i >= 0, i < N, I(z.meta.get().n) == N, I(z.bdry.get().n) == N)); eng.prove('tracked at the tolerance asked for', R(th.tol.get()) == th.want_tol()); eng.prove('with the initial step size', toz(th.reinit.get(), BoolS))
    code = eng.fresh('code', Int); upd(eng, z.bdry, i, path_point=None, success_code=code, last_used_stepsize=None); upd(eng, z.meta, i, path_index=i, solution_index=i, pre_endgame_success=code, precision_changed=None, time_of_first_prec_increase=None, max_precision_used=None); th.cnt.bump(th.cnt.track, i)
def during_c(eng, f, this, e):
    th = eng.theory; z = th.z; i = I(eng.rv(e['args'][0])); eng.prove('a path of this solve', z3.And(i >= 0, i < N, I(z.meta.get().n) == N, I(z.bdry.get().n) == N, I(z.post.get().n) == N)); eng.prove('only paths that reached the boundary', z.at('meta', 'pre_endgame_success', i) == z.ok); eng.prove('tracked at the tolerance asked for', R(th.tol.get()) == th.want_tol())
    upd(eng, z.meta, i, **{k: None for k in DURING_META}); upd(eng, z.post, i, _=None); th.cnt.bump(th.cnt.eg, i)
def all_setup(eng):
    run_setup(eng); C = eng.contract_calls
    for q in eng.db.byq:
        if q.startswith(AL+'ZeroDim<') and q.endswith('::TrackSinglePathBeforeEG'): C[q] = before_c
        if q.startswith(AL+'ZeroDim<') and q.endswith('::TrackSinglePathDuringEG'): C[q] = during_c
def filed(z, i): return z3.And(z.at('meta', 'path_index', i) == i, z.at('meta', 'solution_index', i) == i, z.at('meta', 'pre_endgame_success', i) == z.at('bdry', 'success_code', i))
def kept(z, names, m0): return [('kept '+k, z.at('meta', k, P) == z3.Select(m0[k], P)) for k in m0 if k in names]
def crossed(eng, z):
    """the list of crossed paths as Check leaves it"""
    cls = find1(eng.db, [q for q in insts(eng.db, 'MidpathChecker<', '>::Check') if ('mpc_complex' in q) == eng.theory.adaptive][0])['cls']; n = eng.fresh('listed', Int); idx, rer, pos = z3.Array('listed_path', Int, Int), z3.Array('listed_rerun', Int, BoolS), z3.Array('position', Int, Int); a = z3.Int('a!'); A = z3.Select
    eng.assume(z3.And(n >= 0, z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(A(pos, A(idx, a)) == a, A(idx, a) >= 0, A(idx, a) < N)), patterns=[A(idx, a)]), z3.Or(A(pos, P) == -1, z3.And(A(pos, P) >= 0, A(pos, P) < n, A(idx, A(pos, P)) == P))))
    return recs(eng, cls+'::CrossedPath', n, index_=idx, rerun_=rer), pos, rer
def all_groups():
    out = []
    for kind in KINDS:
        def start(eng, kind=kind): z = begin(eng, kind); th = eng.theory; th.cnt = Counts(eng); return z, th, dict(z.meta.get().arr)
        cnt = lambda th, c: z3.Select(getattr(th.cnt, c).get(), P)
        def sizes(z): return z3.And(I(z.meta.get().n) == N, I(z.bdry.get().n) == N, I(z.post.get().n) == N)
        def run_before(eng, start=start):
            z, th, m0 = start(eng); th.want_tol = lambda: R(z.config('TolerancesConfig', 'newton_before_endgame')); rest = [k for k in m0 if k not in BEFORE_META]; c0 = z.bdry.get().arr['success_code']
            def invs(eng, k, outer):
                k = I(k); yield 'k<=n', k <= N; yield 'sizes', sizes(z); yield 'once', cnt(th, 'track') == z3.If(P < k, 1, 0); yield 'filed', z3.Implies(P < k, filed(z, P)); yield from kept(z, rest, m0)
                yield 'not yet', z3.Implies(P >= k, z3.And(*[z.at('meta', x, P) == z3.Select(m0[x], P) for x in m0]))
            th.invs = invs; z.call('TrackBeforeEG'); eng.prove('every path is tracked exactly once', cnt(th, 'track') == 1); eng.prove('results are filed under their path', filed(z, P)); eng.prove('sizes', sizes(z))
            for n, c in kept(z, rest, m0): eng.prove(n, c)
        out.append(Group('TrackBeforeEG '+kind[0], [AL+'ZeroDim::TrackBeforeEG'], run_before, RTheory, setup=all_setup))
        def run_during(eng, start=start):
            z, th, m0 = start(eng); th.want_tol = lambda: R(z.config('TolerancesConfig', 'newton_during_endgame')); rest = [k for k in m0 if k not in DURING_META]; good = z3.Select(m0['pre_endgame_success'], P) == z.ok
            def invs(eng, k, outer):
                k = I(k); yield 'k<=n', k <= N; yield 'sizes', sizes(z); yield 'once', cnt(th, 'eg') == z3.If(z3.And(P < k, good), 1, 0); yield 'failed paths', z3.Implies(z3.Not(good), z3.And(*[z.at('meta', x, P) == z3.Select(m0[x], P) for x in m0]))
                for x in rest: yield 'kept '+x, z.meta.get().arr[x] == m0[x]
            th.invs = invs; z.call('TrackDuringEG'); eng.prove('the endgame is run once for every path that reached the boundary, for no other', cnt(th, 'eg') == z3.If(good, 1, 0)); eng.prove('nothing is recorded for the others', z3.Implies(z3.Not(good), z3.And(*[z.at('meta', x, P) == z3.Select(m0[x], P) for x in m0]))); eng.prove('sizes', sizes(z))
            for n, c in kept(z, rest, m0): eng.prove(n, c)
        out.append(Group('TrackDuringEG '+kind[0], [AL+'ZeroDim::TrackDuringEG'], run_during, RTheory, setup=all_setup))
        def run_resolve(eng, start=start):
            z, th, m0 = start(eng); list_, pos, rer = crossed(eng, z); mp = z.o.cell('midpath_').get(); mp.f['crossed_paths_'] = Cell(eng, list_, 'crossed_paths_'); tol0 = R(z.o.cell('midpath_retrack_tolerance_').get()); th.reinit.set(z3.BoolVal(True)); fac = R(z.config('AutoRetrackConfig', 'midpath_decrease_tolerance_factor')); th.want_tol = lambda: tol0*fac; w = z3.Select(pos, P); flag = z3.And(w >= 0, z3.Select(rer, w)); eng.assume(filed(z, P)); rest = [k for k in m0 if k not in BEFORE_META]
            def invs(eng, k, outer):
                k = I(k); yield 'k<=n', k <= I(list_.n); yield 'sizes', sizes(z); yield 'once', cnt(th, 'track') == z3.If(z3.And(flag, w < k), 1, 0); yield 'filed', filed(z, P)
                yield from kept(z, rest, m0); yield 'others', z3.Implies(z3.Not(flag), z3.And(*[z.at('meta', x, P) == z3.Select(m0[x], P) for x in m0]))
            th.invs = invs; z.call('MidpathResolve'); eng.prove('exactly the flagged paths are tracked again', cnt(th, 'track') == z3.If(flag, 1, 0)); eng.prove('results are filed under their path', filed(z, P)); eng.prove('the other paths keep their results', z3.Implies(z3.Not(flag), z3.And(*[z.at('meta', x, P) == z3.Select(m0[x], P) for x in m0]))); eng.prove('the tolerance shrinks', R(z.o.cell('midpath_retrack_tolerance_').get()) == tol0*fac)
        out.append(Group('MidpathResolve '+kind[0], [AL+'ZeroDim::MidpathResolve', AL+'ZeroDim::ShrinkMidpathTolerance', AL+'MidpathChecker::GetCrossedPaths'], run_resolve, RTheory, setup=all_setup))
    return out
def check_c(eng, f, this, e):
    th = eng.theory; z = th.z; d = eng.rv(e['args'][0]); eng.prove('the points at the boundary are compared', isinstance(d, Recs) and all(d.arr[k] is z.bdry.get().arr[k] for k in d.arr)); eng.prove('their start points are computed at the initial precision', z3.And(I(th.prec.get()) == I(z.config('ZeroDimConfig', 'initial_ambient_precision')), I(th.cnt.sysprec.get()) == I(th.prec.get())))
    r = eng.fresh('no_crossing', BoolS); th.cnt.last.set(r); th.cnt.fresh.set(z3.BoolVal(True)); return r
def keep(eng, z, facts):
    """the containers change arbitrarily except for what a proved contract says about the path P"""
    for c in (z.meta, z.bdry, z.post): q = c.get(); c.set(q.but(**{k: eng.fresh('after_'+k, a.sort()) for k, a in q.arr.items()}))
    for x in facts(): eng.assume(x)
def same(z, names, m0): return [z.at('meta', k, P) == z3.Select(m0[k], P) for k in m0 if k in names]
def resolve_c(eng, f, this, e):
    """contract of MidpathResolve (proved above)"""
    th = eng.theory; z = th.z; m0 = dict(z.meta.get().arr); eng.prove('retracking follows a check that found crossings', z3.And(toz(th.cnt.fresh.get(), BoolS), z3.Not(toz(th.cnt.last.get(), BoolS)))); eng.prove('filed', filed(z, P)); eng.prove('sizes', sizes(z)); th.cnt.fresh.set(z3.BoolVal(False)); th.cnt.resolves.set(I(th.cnt.resolves.get())+1); keep(eng, z, lambda: [filed(z, P)]+same(z, [k for k in m0 if k not in BEFORE_META], m0))
    for c in (th.prec, th.cnt.sysprec): c.set(eng.fresh('digits', Int))
def boundary_setup(eng):
    all_setup(eng); C = eng.contract_calls
    def prec(eng, f, this, e):
        if e['args'] and isinstance(this.get() if not isinstance(this, Obj) else this, Obj): eng.theory.cnt.sysprec.set(I(eng.rv(e['args'][0])))
    C['bertini::System::precision'] = prec
    for q in eng.db.byq:
        if q.startswith(AL+'MidpathChecker<') and q.endswith('>::Check'): C[q] = check_c
        if q.startswith(AL+'ZeroDim<') and q.endswith('::MidpathResolve'): C[q] = resolve_c
def sizes(z): return z3.And(I(z.meta.get().n) == N, I(z.bdry.get().n) == N, I(z.post.get().n) == N)
def settled(th, z): return z3.And(toz(th.cnt.fresh.get(), BoolS), z3.Or(toz(th.cnt.last.get(), BoolS), I(th.cnt.resolves.get()) >= I(z.config('ZeroDimConfig', 'max_num_crossed_path_resolve_attempts'))))
def phase(name):
    """contracts of the phases of a solve (proved above and below)"""
    def c(eng, f, this, e):
        th = eng.theory; z = th.z; m0 = dict(z.meta.get().arr); n = len(th.phases); th.phases.append(name); eng.prove('room for every path', sizes(z))
        if name == 'TrackBeforeEG': th.cnt.bump(th.cnt.track, P); keep(eng, z, lambda: [filed(z, P)]+same(z, [k for k in m0 if k not in BEFORE_META], m0))
        if name == 'EGBoundaryAction': eng.prove('the paths are tracked to the boundary first', filed(z, P)); keep(eng, z, lambda: [filed(z, P)]+same(z, [k for k in m0 if k not in BEFORE_META], m0)); th.cnt.fresh.set(z3.BoolVal(True)); r = eng.fresh('crossings_settled', BoolS); th.settled = r; eng.assume(r)
        if name == 'TrackDuringEG':
            eng.prove('crossings are settled first', th.settled); good = z3.Select(m0['pre_endgame_success'], P) == z.ok; b0 = z.bdry.get(); keep(eng, z, lambda: same(z, [k for k in m0 if k not in DURING_META], m0)+[z3.Implies(z3.Not(good), z3.And(*same(z, m0, m0)))]); z.bdry.set(b0); th.cnt.eg.set(z3.Store(th.cnt.eg.get(), P, z3.Select(th.cnt.eg.get(), P)+z3.If(good, 1, 0))); th.ended = z.at('meta', 'endgame_success', P)
        if name == 'ComputeMultiplicities': q = z.meta.get(); a = eng.fresh('counted', q.arr['multiplicity'].sort()); eng.assume(z3.Select(a, P) == z3.Select(q.arr['multiplicity'], P)+z3.Int('others_at_the_same_point')); z.meta.set(q.but(multiplicity=a))
    return c
def solve_setup(eng):
    boundary_setup(eng); C = eng.contract_calls
    for q in eng.db.byq:
        for n in ('TrackBeforeEG', 'EGBoundaryAction', 'TrackDuringEG', 'ComputeMultiplicities'):
            if q.startswith(AL+'ZeroDim<') and q.endswith('::'+n): C[q] = phase(n)
def top_groups():
    out = []
    for kind in KINDS:
        def run_b(eng, kind=kind):
            z = begin(eng, kind); th = eng.theory; th.cnt = Counts(eng); m0 = dict(z.meta.get().arr); eng.assume(filed(z, P)); rest = [k for k in m0 if k not in BEFORE_META]; mx = I(z.config('ZeroDimConfig', 'max_num_crossed_path_resolve_attempts')); eng.assume(mx >= 0)
            def invs(eng, k, outer):
                yield 'sizes', sizes(z); yield 'filed', filed(z, P); yield from kept(z, rest, m0); yield 'fresh', toz(th.cnt.fresh.get(), BoolS); c = I(th.cnt.resolves.get()); yield 'bounded', z3.And(c >= 0, c <= mx)
                yield 'attempts', c == I(th.named(eng)('num_resolve_attempts')); yield 'result of the check', toz(th.named(eng)('midcheckpassed'), BoolS) == toz(th.cnt.last.get(), BoolS)
            th.invs = invs; z.call('EGBoundaryAction'); eng.prove('either no crossing is left or every attempt was made', settled(th, z)); eng.prove('not more attempts than asked for', I(th.cnt.resolves.get()) <= mx); eng.prove('results are filed under their path', filed(z, P)); eng.prove('sizes', sizes(z))
            for n, c in kept(z, rest, m0): eng.prove(n, c)
        out.append(Group('EGBoundaryAction '+kind[0], [AL+'ZeroDim::EGBoundaryAction'], run_b, RTheory, setup=boundary_setup))
        def run_s(eng, kind=kind):
            z = begin(eng, kind); th = eng.theory; th.cnt = Counts(eng); th.phases = []; th.settled = z3.BoolVal(False)
            for c in (z.meta, z.bdry, z.post): n = eng.fresh('left_over', Int); eng.assume(n >= 0); c.set(c.get().but(n=n))
            eng.assume(N <= 2**62); tol = R(z.config('TolerancesConfig', 'newton_before_endgame')); z.call('Solve'); at = lambda n: z.at('meta', n, P); never = z3.IntVal(enum_value(eng.db, 'SuccessCode::NeverStarted'))
            eng.prove('one result for each path', sizes(z)); eng.prove('every path is tracked', z3.Select(th.cnt.track.get(), P) >= 1); eng.prove('filed under its path', filed(z, P)); good = at('pre_endgame_success') == z.ok; eng.prove('the endgame is run exactly for the paths that reached the boundary', z3.Select(th.cnt.eg.get(), P) == z3.If(good, 1, 0))
            eng.prove('a path without an endgame is reported as never started, alone', z3.Implies(z3.Not(good), at('endgame_success') == never)); eng.prove('nothing is left of an earlier solve', at('multiplicity') == 1+z3.Int('others_at_the_same_point')); eng.prove('phases', th.phases == ['TrackBeforeEG', 'EGBoundaryAction', 'TrackDuringEG', 'ComputeMultiplicities']); eng.prove('retracking starts from the tolerance of tracking', R(z.o.cell('midpath_retrack_tolerance_').get()) == tol)
        out.append(Group('Solve '+kind[0], [AL+'ZeroDim::'+n for n in ('Solve', 'PreSolveChecks', 'PreSolveSetup', 'PostEGAction', 'ComputePostTrackMetadata', 'SetMidpathRetrackTol')], run_s, RTheory, setup=solve_setup))
    return out
def solve_groups(): return midpath_groups()+multiplicity_groups()+path_groups()+all_groups()+top_groups()
