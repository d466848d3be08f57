"""P11: multihomogeneous start systems."""
from .system import *
from .system import S, nodes, find1, WRAP
MH = 'bertini::start_system::MHomogeneous'
N, M = z3.Int('functions'), z3.Int('groups_of_variables'); DEGM = z3.Function('degree_matrix', Int, Int, Int); SZ = z3.Function('size_of_group', Int, Int)
i1, j1 = z3.Int('i1'), z3.Int('j1'); VI = 'Eigen::Matrix<int, -1, 1, 0, -1, 1>'
class MTheory(ArrTheory):
    """sinv(eng, value): invariants about the named local variables, ghost cells by name"""
    fold_ptr = True; cut = ('w',); bare = ('w',)
    def reset(s, eng):
        super().reset(eng); s.sinv = None; s.gh = {}; s.elems = None; eng.fact(z3.And(N >= 1, M >= 1, N < 2**31, M < 2**31)); q = z3.Int('q'); eng.fact(z3.ForAll([q], SZ(q) >= 0, patterns=[SZ(q)])); r = z3.Int('r'); eng.fact(z3.ForAll([q, r], DEGM(q, r) >= 0, patterns=[DEGM(q, r)]))
    def named(s, eng):
        env = {c.name: c for c in eng.frames[-1]['env'].values() if isinstance(c, Cell)}; env.update(s.gh)
        return lambda n: env[n].get() if n in env else None
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        if s.sinv:
            try: out += [('st:'+n, c) for n, c in s.sinv(eng, s.named(eng), occ[0][0], k)]
            except (KeyError, AttributeError, TypeError) as x: pass
        return out
    def elem_templates(s, eng, el, el0, ix, k, n): return list(s.elems(eng, el, el0, ix, k, eng.outer)) if s.elems else []
def ALL(vs, body, *pat):
    """for all; with the terms as pattern where they are plain applications"""
    ok = all(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() for t in pat); have = set()
    if pat and ok:
        st = list(pat)
        while st: x = st.pop(); have.add(x.get_id()); st += x.children()
        ok = all(v.get_id() in have for v in vs)
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pat)] if len(pat) > 1 else list(pat)) if pat and ok else z3.ForAll(vs, body)
def degm(eng): return Mat(N, M, lambda i, j: DEGM(I(i), I(j)), Int)
def mh(eng):
    o = Obj(eng, MH); o.f['degree_matrix_'] = Cell(eng, degm(eng), 'degree_matrix'); return o
def lib(eng, want=()):
    C = eng.contract_calls
    C[S+'::NumTotalVariableGroups'] = lambda eng, f, this, e: M
    C[S+'::NumNaturalFunctions'] = lambda eng, f, this, e: N
def ints(eng, F, n): return Mat(n, 1, lambda i, j: F(I(i)), Int)
def partition_groups():
    out = []
    P = z3.Function('partition', Int, Int)
    def run_np(eng):
        th = eng.theory; q = z3.Int('q'); PR = Rec('product', Int, 1, lambda k, x: x*DEGM(k, P(k))); PR.base(eng); th.own = [PR]; th.invs = lambda eng, k, outer: [('k<=n', k <= N)]
        r = eng.call_fn(find1(eng.db, MH+'::NumStartPointsForPartition'), mh(eng), [Cell(eng, ints(eng, P, N), 'partition')])
        eng.prove('as many start points as the product of the degrees', I(r) == PR.F(N))
    out.append(Group('NumStartPointsForPartition', [MH+'::NumStartPointsForPartition'], run_np, MTheory, setup=lib))
    V = z3.Int('valid_partitions'); VP = z3.Function('valid_partition', Int, Int, Int); NP_ = z3.Function('points_of_partition', Int, Int)
    def run_n(eng):
        th = eng.theory; eng.assume(V >= 0); PS = Rec('sum_of_points', Int, 0, lambda k, x: x+NP_(k)); PS.base(eng); th.own = [PS]; th.invs = lambda eng, k, outer: [('k<=n', k <= V)]; o = mh(eng)
        def el(g): m = Mat(N, 1, lambda i, j: VP(I(g), I(i)), Int); m.g = I(g); return m
        o.f['valid_partitions_'] = Cell(eng, Seq(eng, VI, V, el, sid=VP), 'valid')
        eng.contract_calls[MH+'::NumStartPointsForPartition'] = lambda eng, f, this, e: NP_(eng.rv(e['args'][0]).g)
        r = eng.call_fn(find1(eng.db, MH+'::NumStartPoints'), o, []); eng.prove('the start points of all valid partitions', I(r) == PS.F(V))
    out.append(Group('NumStartPoints', [MH+'::NumStartPoints'], run_n, MTheory, setup=lib))
    C0 = z3.Function('counter_before', Int, Int); row, c = z3.Int('row'), z3.Int('column')
    def restored(j): return C0(j)+z3.If(z3.And(c >= 0, j == c), 1, 0)
    def run_ch(eng):
        th = eng.theory; eng.assume(z3.And(row >= 0, row < N, c >= -1, c < M)); cell = Cell(eng, ints(eng, C0, M), 'variable_group_counter'); th.gh['counter'] = cell; q = z3.Int('q')
        def sinv(eng, v, kind, k):
            col, done, cnt = I(v('col')), I(v('done')), v('counter'); el = lambda j: I(cnt.elem(j, 0))
            yield 'range', z3.And(col > c, col <= M, z3.Or(done == 0, done == 1)); yield 'skipped', z3.ForAll([q], z3.Implies(z3.And(q > c, q < col), z3.Or(DEGM(row, q) == 0, restored(q) == 0)), patterns=[DEGM(row, q)])
            yield 'found', z3.Implies(z3.And(done == 1, col < M), z3.And(DEGM(row, col) != 0, restored(col) != 0)); yield 'counter', z3.ForAll([q], el(q) == restored(q)-z3.If(z3.And(done == 1, col < M, q == col), 1, 0))
        th.sinv = sinv
        r = I(eng.call_fn(find1(eng.db, MH+'::ChooseColumnInRow'), mh(eng), [Cell(eng, Obj(eng, S), 'target'), cell, Cell(eng, row, 'row'), Cell(eng, c, 'column')]))
        eng.prove('a later column or none', z3.And(r > c, r <= M)); eng.prove('the column is admissible', z3.Implies(r < M, z3.And(DEGM(row, r) != 0, restored(r) != 0)))
        eng.prove('no admissible column is skipped', z3.Implies(z3.And(j1 > c, j1 < r), z3.Or(DEGM(row, j1) == 0, restored(j1) == 0))); eng.prove('the old choice is given back, the new one taken', I(cell.get().elem(j1, 0)) == restored(j1)-z3.If(z3.And(r < M, j1 == r), 1, 0))
    out.append(Group('ChooseColumnInRow', [MH+'::ChooseColumnInRow'], run_ch, MTheory, setup=lib))
    PS = z3.Function('some_valid_partition', Int, Int); CP = z3.Function('used_by_it', Int, Int, Int)      # CP(k,j): number of i < k with PS(i) = j
    def run_gv(eng):
        th = eng.theory; o = mh(eng); q, r = z3.Int('q'), z3.Int('r'); H = z3.Function('no_history', Int, Int, Int)
        o.f['var_groups_'] = Cell(eng, Seq(eng, 'std::vector<std::shared_ptr<bertini::node::Variable>>', M, lambda g: Seq(eng, 'std::shared_ptr<bertini::node::Variable>', SZ(I(g)), lambda i: Ptr(ANode(NULLN))), sid=SZ), 'groups')
        o.f['valid_partitions_'] = Cell(eng, Seq(eng, VI), 'valid')
        eng.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), z3.And(PS(q) >= 0, PS(q) < M, DEGM(q, PS(q)) != 0)), patterns=[PS(q)]))
        # it uses each group at most as often as it has variables; CP grows (lemma by induction on k)
        eng.fact(z3.ForAll([r], CP(0, r) == 0, patterns=[CP(0, r)]))
        eng.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N), z3.And(CP(q+1, PS(q)) == CP(q, PS(q))+1, CP(q, PS(q))+1 <= SZ(PS(q)))), patterns=[PS(q)]))
        hist = Cell(eng, Mat(N+1, M, lambda i, j: z3.If(I(i) == 0, z3.IntVal(0), H(I(i), I(j))), Int), 'history'); D = Cell(eng, z3.IntVal(0), 'agrees'); CNT = Cell(eng, z3.IntVal(0), 'found'); th.gh.update(history=hist, agrees=D, found=CNT); loc = {}
        def choose(eng, f, this, e):
            cc = eng.lv(e['args'][1]); rw, c = I(eng.rv(e['args'][2])), I(eng.rv(e['args'][3])); eng.prove('a row of the matrix', z3.And(rw >= 0, rw < N, c >= -1, c < M)); m = cc.get(); old = m.elem
            new = eng.fresh('column', Int); rest = lambda j: I(old(j, 0))+z3.If(z3.And(c >= 0, I(j) == c), 1, 0)
            eng.fact(z3.And(new > c, new <= M, z3.Implies(new < M, z3.And(DEGM(rw, new) != 0, rest(new) != 0)))); eng.fact(z3.ForAll([q], z3.Implies(z3.And(q > c, q < new), z3.Or(DEGM(rw, q) == 0, rest(q) == 0)), patterns=[DEGM(rw, q)]))
            eng.fact(z3.ForAll([q], CP(rw+1, q) == CP(rw, q)+z3.If(PS(rw) == q, 1, 0), patterns=[CP(rw+1, q)])); eng.fact(z3.ForAll([q], CP(rw+1, q) == CP(rw, q)+z3.If(PS(rw) == q, 1, 0), patterns=[CP(rw, q)]))
            eng.fact(z3.Implies(z3.And(PS(rw) > c, PS(rw) < new), z3.Or(DEGM(rw, PS(rw)) == 0, rest(PS(rw)) == 0)))
            cc.set(Mat(m.rows, 1, lambda i, j: rest(i)-z3.If(z3.And(new < M, I(i) == new), 1, 0), Int))
            h = hist.get(); ho = h.elem; hist.set(Mat(h.rows, h.cols, lambda i, j: z3.If(z3.And(new < M, I(i) == rw+1), I(ho(rw, j))+z3.If(I(j) == new, 1, 0), I(ho(i, j))), Int))
            d = D.get(); D.set(z3.If(new == M, z3.If(d < rw-1, d, rw-1), z3.If(d < rw, d, z3.If(new == PS(rw), rw+1, rw)))); return new
        eng.contract_calls[MH+'::ChooseColumnInRow'] = choose
        push0 = None
        def push(eng, this, v):
            h = hist.get(); i, j = eng.fresh('i', Int), eng.fresh('j', Int); el = lambda i: I(v.elem(i, 0))
            eng.assume(z3.And(i >= 0, i < N, j >= 0, j < M))
            eng.prove('a stored partition has one column per row', I(v.rows) == N); eng.prove('each with positive degree', z3.And(el(i) >= 0, el(i) < M, DEGM(i, el(i)) != 0))
            eng.prove('uses are counted', z3.And(I(h.elem(0, j)) == 0, I(h.elem(i+1, j)) == I(h.elem(i, j))+z3.If(el(i) == j, 1, 0))); eng.prove('no group is used more often than it has variables', I(h.elem(N, j)) <= SZ(j))
            eng.prove('it is the partition looked at exactly if it agrees with it', z3.And(D.get() >= 0, D.get() <= N, z3.Implies(z3.And(i < D.get()), el(i) == PS(i)), z3.Implies(D.get() < N, el(D.get()) != PS(D.get()))))
            CNT.set(CNT.get()+z3.If(D.get() == N, 1, 0)); D.set(z3.If(D.get() < N-1, D.get(), N-1))
        th.push = push
        def sinv(eng, v, kind, k):
            rw, cp, cnt, h, d, f = v('row'), v('current_partition'), v('variable_group_counter'), hist.get(), D.get(), CNT.get()
            p = lambda i: I(cp.elem(i, 0)); hh = lambda i, j: I(h.elem(i, j)); c = lambda i: I(cnt.elem(i, 0))
            if kind == 'f': yield 'sizes', z3.And(I(cnt.rows) == M, I(v('ii')) == k, k <= M, ALL([q], z3.Implies(z3.And(q >= 0, q < k), c(q) == SZ(q)), c(q))); return
            rw = I(rw)
            yield 'row', z3.And(rw >= -1, rw < N, I(cp.rows) == N, I(cnt.rows) == M); yield 'bad', I(v('bad_choice')) == 0
            yield 'here', z3.Implies(rw >= 0, z3.And(p(rw) >= -1, p(rw) < M, z3.Implies(p(rw) >= 0, DEGM(rw, p(rw)) != 0)))
            yield 'chosen', ALL([q], z3.Implies(z3.And(q >= 0, q < rw), z3.And(p(q) >= 0, p(q) < M, DEGM(q, p(q)) != 0)), p(q))
            yield 'counters', z3.Implies(rw >= 0, ALL([q], z3.Implies(z3.And(q >= 0, q < M), z3.And(c(q) >= 0, c(q)+hh(rw, q)+z3.If(p(rw) == q, 1, 0) == SZ(q))), c(q)))
            yield 'start', ALL([r], hh(0, r) == 0, hh(0, r)); yield 'history', ALL([q, r], z3.Implies(z3.And(q >= 0, q < rw), hh(q+1, r) == hh(q, r)+z3.If(p(q) == r, 1, 0)), p(q), hh(q, r))
            yield 'agreement', z3.Implies(rw >= 0, z3.And(d >= 0, d <= rw, z3.Implies(d < rw, p(d) != PS(d)))); yield 'agree', ALL([q], z3.Implies(z3.And(rw >= 0, q >= 0, q < d), p(q) == PS(q)), p(q)); yield 'uses agree', ALL([q, r], z3.Implies(z3.And(rw >= 0, q >= 0, q <= d), hh(q, r) == CP(q, r)), hh(q, r))
            yield 'count', f == z3.If(rw < 0, 1, z3.If(z3.Or(z3.And(d < rw, PS(d) < p(d)), z3.And(d == rw, PS(rw) <= p(rw))), 1, 0))
        th.sinv = sinv
        eng.call_fn(find1(eng.db, MH+'::GenerateValidPartitions'), o, [Cell(eng, Obj(eng, S), 'target')])
        eng.prove('an arbitrary valid partition is stored exactly once', CNT.get() == 1)
    def lib_gv(eng, want=()):
        lib(eng)
    out.append(Group('GenerateValidPartitions', [MH+'::GenerateValidPartitions'], run_gv, MTheory, setup=lib_gv))
    return out
def point_groups():
    out = []; V, IDX, NV, PTS = z3.Int('valid_partitions'), z3.Int('index'), z3.Int('variables'), z3.Int('grouped_variables'); VP = z3.Function('valid_partition', Int, Int, Int); NP_ = z3.Function('points_of_partition', Int, Int)
    VGN, OFF = z3.Function('variable_of_group', Int, Int, Node), z3.Function('first_column_of_group', Int, Int); VARS = z3.Function('variable_in_order', Int, Node); GRP, PLC, POS = z3.Function('group_of_variable', Int, Int), z3.Function('place_in_group', Int, Int), z3.Function('position', Node, Int)
    LPN = z3.Function('linear_product', Int, Int, Node); COEF = z3.Function('coefficient', Node, Int, Int, Real); SUBS = z3.Function('subscript', Int, Int); SOL, RES = z3.Function('solution', Int, Real), z3.Function('rescaled', Int, Real); PATCHED = z3.Bool('patched')
    VT = 'std::shared_ptr<bertini::node::Variable>'; i0 = z3.Int('i0')
    class PTheory(MTheory):
        fold_ptr = True; place = False
        def reset(s, eng):
            super().reset(eng); q, r = z3.Int('q'), z3.Int('r'); eng.fact(z3.And(V >= 0, NV >= 0, PTS >= 0, IDX >= 0)); s.sol = s.lhs = s.res = None
            s.stage = 'index'
            for F, a in ((VGN, (q, r)), (VARS, (q,)), (LPN, (q, r))): eng.fact(z3.ForAll(list(a), F(*a) != NULLN, patterns=[F(*a)]))
            eng.fact(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < V, r >= 0, r < N), z3.And(VP(q, r) >= 0, VP(q, r) < M)), patterns=[VP(q, r)])); eng.fact(z3.ForAll([q], NP_(q) >= 0, patterns=[NP_(q)]))
            # the columns of the groups follow each other
            eng.fact(OFF(0) == 0); eng.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < M), z3.And(OFF(q) >= 0, OFF(q+1) == OFF(q)+SZ(q), OFF(q)+SZ(q) <= PTS)), patterns=[OFF(q)]))
        def of_group(s, eng, x):
            """every variable of a group is in the ordering, once"""
            if not (z3.is_app(x) and x.decl().eq(VGN)): raise Unsupported('variable of no group')
            q, r = x.arg(0), x.arg(1); eng.fact(z3.Implies(z3.And(q >= 0, q < M, r >= 0, r < SZ(q)), z3.And(POS(x) >= 0, POS(x) < NV, VARS(POS(x)) == x, GRP(POS(x)) == q, PLC(POS(x)) == r)))
        def in_order(s, eng, x):
            """a variable of the ordering is in one group or (a homogenizing one) in none"""
            eng.fact(z3.Implies(z3.And(x >= 0, x < NV), z3.And(POS(VARS(x)) == x, z3.Or(GRP(x) == -1, z3.And(GRP(x) >= 0, GRP(x) < M, PLC(x) >= 0, PLC(x) < SZ(GRP(x)), VGN(GRP(x), PLC(x)) == VARS(x))))))
        def loop_entry(s, eng):
            v = s.named(eng)
            if s.stage == 'index' and v('dim_vector') is not None: s.stage = 'dims'; s.P = I(v('partition_ii'))
            if s.stage == 'ones' and v('counter_solution') is not None: s.stage = 'place'
        def eigen(s, eng, f, this, args, e, n):
            v = this.get() if this is not None else None
            if n in ('partialPivLu', 'lu', 'fullPivLu') and isinstance(v, Mat): o = Opaque(z3.FreshInt('decomposition')); s.lhs = v; s.dec = o; return Val(o)
            if n == 'solve' and isinstance(v, Opaque) and v is s.dec:
                b = eng.rv(args[0]); s.sol = (s.lhs, b)
                if not s.place: raise ThrowEx('equations complete', e['l'])
                s.stage = 'ones'; return Mat(s.lhs.cols, 1, lambda i, j: SOL(I(i)))
            return super().eigen(eng, f, this, args, e, n)
    class QTheory(PTheory): place = True
    def setup(eng):
        lib(eng); C = eng.contract_calls; th = eng.theory
        C['bertini::System::NumVariables'] = lambda eng, f, this, e: NV
        C['bertini::System::NumNaturalVariables'] = lambda eng, f, this, e: PTS+z3.Int('ungrouped')
        C['bertini::System::NumUngroupedVariables'] = lambda eng, f, this, e: z3.Int('ungrouped')
        C['bertini::System::IsPatched'] = lambda eng, f, this, e: PATCHED
        C['bertini::System::Variables'] = lambda eng, f, this, e: nodes(eng, VARS, NV, VT)
        def resc(eng, f, this, e):
            c = eng.lv(e['args'][0]); th.res = c.get(); n = c.get().rows; c.set(Mat(n, 1, lambda i, j: RES(I(i)))); return None
        C['bertini::System::RescalePointToFitPatchInPlace'] = resc
        C[MH+'::NumStartPointsForPartition'] = lambda eng, f, this, e: NP_(eng.rv(e['args'][0]).g)
        def coeffs(eng, f, this, e):
            n = th.term_of(eng, Ptr(obj(this))); ix = I(eng.rv(e['args'][0])); g = eng.fresh('width', Int); return Mat(WIDTH(n), 1, lambda i, j: COEF(n, ix, I(i)))
        C['bertini::node::LinearProduct::GetCoeffs'] = coeffs
        def find(eng2, e, f):
            a, b, x = eng.rv(e['args'][0]), eng.rv(e['args'][1]), eng.rv(e['args'][2])
            if not (isinstance(a, Iter) and isinstance(x, Ptr)): return NotImplemented
            s = a.seq.get() if not isinstance(a.seq, Seq) else a.seq
            if not (eng.entails(I(a.i) == 0) and eng.entails(I(s.size()) == NV) and getattr(s, 'sid', None) is VARS): raise Unsupported('find')
            t = th.term_of(eng, x); th.of_group(eng, t); return Iter(a.seq, POS(t))      # contract of std::find: the place of the variable in the ordering
        eng.models['std::find'] = find
    WIDTH = z3.Function('width_of_factor', Node, Int)
    def obj(v): return v.get() if isinstance(v, (Cell, FnCell, Val)) else v
    for nm, pt in (('double', 'std::complex<double>'), ('multiple', 'number<')):
        def run(eng, pt=pt):
            th = eng.theory; o = mh(eng); q, r = z3.Int('q'), z3.Int('r'); f = find1(eng.db, MH+'::GenerateStartPointT', lambda f: pt in f['targs'][0])
            def part(g): m = Mat(N, 1, lambda i, j: VP(I(g), I(i)), Int); m.g = I(g); return m
            eng.fact(z3.ForAll([q, r], z3.Implies(z3.And(r >= 0, r < M), WIDTH(LPN(q, r)) == SZ(r)+1), patterns=[LPN(q, r)]))
            o.f['valid_partitions_'] = Cell(eng, Seq(eng, VI, V, part, sid=VP), 'valid'); o.f['linprod_matrix_'] = Cell(eng, Mat(N, M, lambda i, j: Ptr(ANode(LPN(I(i), I(j)), PFX+'LinearProduct')), Node), 'products')
            o.f['variable_cols_'] = Cell(eng, Seq(eng, 'std::vector<unsigned long>', M, lambda g: Seq(eng, 'unsigned long', SZ(I(g)), lambda i: OFF(I(g))+I(i)), sid=SZ), 'columns')
            o.f['var_groups_'] = Cell(eng, Seq(eng, 'std::vector<%s>' % VT, M, lambda g: Seq(eng, VT, SZ(I(g)), lambda i: Ptr(ANode(VGN(I(g), I(i)))), sid=VGN), sid=SZ), 'groups')
            PS = Rec('sum_of_points', Int, 0, lambda k, x: x+NP_(k)); PS.base(eng); th.own = [PS]; th.P = None
            g = lambda i: VP(th.P, I(i)); lp = lambda i: LPN(I(i), g(i)); cf = lambda i, j: COEF(lp(i), SUBS(I(i)), I(j))
            def i2s(eng, f, this, e):
                ix = I(eng.rv(e['args'][0])); d = eng.rv(e['args'][1]); m = eng.fresh('m', Int); P = th.P; eng.fact(PS.F(P+1) == PS.F(P)+NP_(P))
                th.own = []; th.stage = 'rows'
                if not th.place: eng.prove('the index is that of a point of the partition', z3.And(ix == IDX-PS.F(P), ix >= 0, ix < NP_(P), P >= 0, P < V))
                if not th.place: eng.prove('taken apart by the degrees of the partition', z3.And(I(d.size()) == N, z3.Implies(z3.And(m >= 0, m < N), I(d.elem(m)) == DEGM(m, g(m)))))
                return Seq(eng, 'unsigned long', N, lambda i: SUBS(I(i)), sid=SUBS)      # the points of a partition are as many as the product of these degrees
            eng.contract_calls['bertini::IndexToSubscript'] = i2s
            def sinv(eng, v, kind, k): return ()
            def invs(eng, k, outer):
                if th.stage == 'index': yield 'k<=V', k <= V; yield 'before', IDX >= PS.F(k)
                elif th.stage == 'dims' and not th.place: yield 'k<=N', k <= N
                elif th.stage == 'rows': yield ('k<=size', k <= SZ(g(outer[0]))) if len(outer) else ('k<=N', k <= N)
                elif th.stage == 'place':
                    if len(outer): yield 'k<=size', k <= SZ(outer[0]); yield 'next', I(th.named(eng)('counter_solution')) == OFF(outer[0])+k; return
                    yield 'next', I(th.named(eng)('counter_solution')) == OFF(k); yield 'k<=M', k <= M
                elif th.stage == 'ones': yield 'k<=NV', k <= NV
            th.invs = invs
            def elems(eng, el, el0, ix, k, outer):
                if th.stage == 'dims' and not th.place: yield 'dims', z3.Implies(z3.And(ix >= 0, ix < k), el == DEGM(ix, g(ix)))
            th.elems = elems
            def row(i, c): j = g(i); return z3.If(z3.And(I(c) >= OFF(j), I(c) < OFF(j)+SZ(j)), cf(i, I(c)-OFF(j)), 0)
            def mats(eng, el, el0, ix, k, outer):
                r, c = ix
                if th.stage == 'rows' and not th.place:
                    if len(outer): j = g(outer[0]); yield 'coefficients', z3.Implies(c == 0, el == z3.If(z3.And(r >= OFF(j), r < OFF(j)+k), cf(outer[0], r-OFF(j)), 0))
                    else: yield 'rows', z3.Implies(z3.And(r >= 0, r < k), el == row(r, c)); yield 'constants', z3.Implies(z3.And(c == 0, r >= 0, r < k), el == -cf(r, SZ(g(r))))
                if th.stage == 'ones': yield 'ones', z3.Implies(z3.And(c == 0, r >= 0, r < k), el == 1)
                if th.stage == 'place':
                    if len(outer): yield 'placed', placed(el, ix, outer[0], k)
                    else: yield 'placed', placed(el, ix, k, 0)
            def placed(el, ix, g1, k):
                x = ix[0]; th.in_order(eng, x); done = z3.And(GRP(x) >= 0, z3.Or(GRP(x) < g1, z3.And(GRP(x) == g1, PLC(x) < k))); return z3.Implies(z3.And(ix[1] == 0, x >= 0, x < NV), el == z3.If(done, SOL(OFF(GRP(x))+PLC(x)), 1))
            th.mats = mats
            start = Cell(eng, Mat(NV, 1, lambda i, j: z3.Real('old')), 'start_point')
            try: eng.call_fn(f, o, [start, Cell(eng, IDX, 'index')])
            except ThrowEx as x:
                if th.sol is None: eng.prove('rejected only when there are no more points', IDX >= PS.F(V)); return
            if not th.place:
                A, b = th.sol; c0 = z3.Int('c0'); eng.assume(z3.And(i0 >= 0, i0 < N, c0 >= 0, c0 < PTS))
                eng.prove('one linear equation per function, in the grouped variables', z3.And(I(A.rows) == N, I(A.cols) == PTS, I(b.rows) == N))
                eng.prove('row i has the coefficients of the chosen factor of the product of function i and its group', R(A.elem(i0, c0)) == row(i0, c0)); eng.prove('against its constant', R(b.elem(i0, 0)) == -cf(i0, SZ(g(i0)))); return
            res = start.get(); eng.prove('rescaled exactly if patched', PATCHED == z3.BoolVal(th.res is not None)); x0 = z3.Int('x0'); eng.assume(z3.And(x0 >= 0, x0 < NV))
            if th.res is not None: eng.prove('the rescaled point is returned', R(res.elem(x0, 0)) == RES(x0)); res = th.res
            eng.prove('one coordinate per variable', I(res.rows) == NV)
            eng.prove('each grouped variable has its coordinate of the solution, the others are one', R(res.elem(x0, 0)) == z3.If(GRP(x0) >= 0, SOL(OFF(GRP(x0))+PLC(x0)), 1))
        out.append(Group('GenerateStartPointT %s: equations' % nm, [MH+'::GenerateStartPointT'], run, PTheory, setup=setup)); out.append(Group('GenerateStartPointT %s: placement' % nm, [MH+'::GenerateStartPointT'], run, QTheory, setup=setup))
    def run_lemma(eng):
        # the row of a factor is zero outside the columns of its group: the sum over all columns is the sum over the group
        A, X, RS, FS = [z3.Function(x, Int, Real) for x in ('row', 'solution', 'sum_of_row', 'sum_of_factor')]; k, off, n, t = [z3.Int(x) for x in ('k', 'offset', 'size', 'total')]; C_ = z3.Function('coefficient', Int, Real)
        eng.assume(z3.And(off >= 0, n >= 0, off+n <= t, k >= 0, k < t)); eng.fact(A(k) == z3.If(z3.And(k >= off, k < off+n), C_(k-off), 0)); eng.fact(RS(0) == 0); eng.fact(RS(k+1) == RS(k)+A(k)*X(k)); eng.fact(FS(0) == 0); eng.fact(z3.Implies(z3.And(k >= off, k < off+n), FS(k-off+1) == FS(k-off)+C_(k-off)*X(k)))
        inv = lambda k: RS(k) == z3.If(k <= off, z3.RealVal(0), z3.If(k <= off+n, FS(k-off), FS(n)))
        eng.prove('before the first column', inv(z3.IntVal(0))); eng.prove('one more column', z3.Implies(z3.And(inv(k), z3.Implies(k == off, FS(k-off) == 0), z3.Implies(k == off+n-1, FS(k+1-off) == FS(n)), z3.Implies(k == off+n, FS(k-off) == FS(n))), inv(k+1)))
        c = z3.Real('constant'); eng.prove('the chosen factor vanishes', z3.Implies(z3.And(inv(t), z3.Implies(t == off, n == 0), RS(t) == -c, z3.Implies(off+n == t, FS(t-off) == FS(n))), FS(n)+c == 0))
    out.append(Group('a solution of the equations is a zero of the chosen factors', [], run_lemma, ArrTheory))
    for nm, pt in (('double', 'std::complex<double>'), ('multiple', 'number<')):
        def run_w(eng, pt=pt):
            calls = []
            def gen(eng, f, this, e): calls.append((obj(this), I(eng.rv(e['args'][1])))); c = eng.lv(e['args'][0]); eng.prove('a vector with one place per variable', I(c.get().rows) == NV); c.set(Mat(NV, 1, lambda i, j: RES(I(i)))); return None
            eng.contract_calls[MH+'::GenerateStartPointT'] = gen; o = mh(eng); f = find1(eng.db, MH+'::GenerateStartPoint', lambda f: pt in f['params'][0]['t'])
            r = eng.call_fn(f, o, [Cell(eng, Fraction(0)), Cell(eng, IDX)]); r = obj(r); eng.assume(z3.And(i0 >= 0, i0 < NV)); eng.prove('the point with this index', z3.And(z3.BoolVal(len(calls) == 1 and calls[0][0] is o), calls[0][1] == IDX)); eng.prove('is returned', z3.And(I(r.rows) == NV, R(r.elem(i0, 0)) == RES(i0)))
        out.append(Group('GenerateStartPoint '+nm, [MH+'::GenerateStartPoint'], run_w, MTheory, setup=setup))
    return out
def build_groups():
    """the start system: products of linear factors, as many in each group of variables as the degree in it"""
    out = []; HG = z3.Int('projective_groups'); LPN = z3.Function('made_product', Int, Int, BoolS, Node); PRD = z3.Function('times', Node, Node, Node); ONE = z3.Const('one', Node); GID = z3.Function('group_given', Int, Int); VT = 'std::shared_ptr<bertini::node::Variable>'; i0 = z3.Int('i0')
    TF, NVS = z3.Int('total_functions'), z3.Int('variables'); HP, PO, HO, PA = [z3.Bool(x) for x in ('path_variable', 'polynomial', 'homogeneous', 'patched')]; NVAL = z3.Function('value_of_node', Node, Real)
    obj = lambda v: v.get() if isinstance(v, (Cell, FnCell, Val)) else v
    FNODE = z3.Function('added_function', Int, Node)
    class BTheory(MTheory):
        fold_ptr = True; cut = bare = ()
        def reset(s, eng):
            ArrTheory.reset(s, eng); s.sinv = None; s.gh = {}; s.elems = None; s.done = []; eng.fact(z3.And(N >= 1, M >= 1, N < 2**31, M < 2**31, HG >= 0, HG <= M, ONE != NULLN, NVAL(ONE) == 1))
    def given(eng, f, this, e, v):
        eng.prove('asked of the system given', z3.BoolVal(obj(this) is eng.theory.given)); return v
    def info(eng):
        C = eng.contract_calls
        for n, v in (('NumHomVariableGroups', HG), ('NumTotalFunctions', TF), ('NumVariables', NVS), ('HavePathVariable', HP), ('IsPolynomial', PO), ('IsHomogeneous', HO), ('IsPatched', PA), ('NumNaturalFunctions', N), ('NumTotalVariableGroups', M)):
            C[S+'::'+n] = lambda eng, f, this, e, v=v: given(eng, f, this, e, v)
        for n in ('CreateDegreeMatrix', 'GenerateValidPartitions'): C[MH+'::'+n] = mark(n)
        for n in ('CopyVariableStructure', 'Homogenize', 'CopyPatches'): C[S+'::'+n] = mark(n)
        C[S+'::System'] = lambda eng, f, this, e: None; C['bertini::start_system::StartSystem::StartSystem'] = lambda eng, f, this, e: None
        def one(eng, f, this, e): x = eng.rv(e['args'][0]); eng.prove('starts from one', z3.BoolVal(x == 1) if not is_z(x) else x == 1); return Ptr(ANode(ONE))
        C['bertini::node::Integer::Make'] = one
        th = eng.theory
        def lp(eng, f, this, e):
            g = eng.lv(e['args'][0]); g = g.get() if not isinstance(g, Seq) else g; d = I(eng.rv(e['args'][1])); h = toz(eng.rv(e['args'][2]), BoolS) if len(e['args']) > 2 else z3.BoolVal(False); j = getattr(g, 'g', None)
            if j is None: raise Unsupported('variables of the product')
            eng.fact(LPN(I(j), d, h) != NULLN); return Ptr(ANode(LPN(I(j), d, h), PFX+'LinearProduct'))
        C['bertini::node::LinearProduct::Make'] = lp
        def mul(eng, f, this, e):
            c = eng.lv(e['args'][0]); a, b = th.term_of(eng, c.get()), th.term_of(eng, eng.rv(e['args'][1])); p = PRD(a, b); eng.fact(z3.And(p != NULLN, NVAL(p) == NVAL(a)*NVAL(b))); c.set(Ptr(ANode(p))); return c
        C['bertini::node::operator*='] = mul
        def add(eng, f, this, e):
            o = obj(this); t = th.term_of(eng, eng.rv(e['args'][0])); from engine.models import joined
            c = o.f['functions_']; c.set(joined(eng, c.get(), 1, lambda i, t=t: Ptr(ANode(t)))); th.done.append(('AddFunction', None)); return None
        C[S+'::AddFunction'] = add
    def mark(n):
        def c(eng, f, this, e):
            v = obj(eng.lv(e['args'][0])) if e['args'] else None; eng.theory.done.append((n, 'given' if v is eng.theory.given else v))
            if n == 'CreateDegreeMatrix': o = obj(this); o.f['degree_matrix_'].set(degm(eng)); o.f['var_groups_'].set(groups(eng))
            return None
        return c
    def groups(eng):
        def el(g): q = Seq(eng, VT, SZ(I(g)), lambda i: Ptr(ANode(NULLN))); q.g = I(g); return q
        return Seq(eng, 'std::vector<%s>' % VT, M, el, sid=SZ)
    def run_ctor(eng):
        th = eng.theory; g = th.given = Obj(eng, S); o = Obj(eng, MH); o.ghost['built'] = True; P = z3.Function('product_of_factors', Int, Int, Real)      # P(i,j): product of the factors of function i in the first j groups
        o.f['functions_'] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Function>'), 'functions'); o.f['degree_matrix_'] = Cell(eng, degm(eng), 'degree_matrix'); o.f['var_groups_'] = Cell(eng, groups(eng), 'groups')
        lp = lambda i, j: LPN(I(j), DEGM(I(i), I(j)), I(j) < HG); has = lambda i, j: DEGM(I(i), I(j)) != 0; th.P = P
        def step(i, j): eng.fact(z3.Implies(z3.And(j >= 0, j < M), P(i, j+1) == z3.If(has(i, j), P(i, j)*NVAL(lp(i, j)), P(i, j)))); eng.fact(P(i, 0) == 1)
        def invs(eng, k, outer):
            if len(outer) == 0: yield 'k<=n', k <= N; return
            i = outer[0]; step(i, k); step(i, k-1); v = th.named(eng)('func'); t = th.term_of(eng, v); yield 'product', NVAL(t) == P(i, k); yield 'product later', NVAL(t) == P(i, HG+k); step(i, HG+k-1); step(i, HG+k); yield 'there', t != NULLN; yield 'k<=HG', k <= HG; yield 'k<=M', k <= M-HG
        th.invs = invs
        def mats(eng, el, el0, ix, k, outer):
            i, j = ix
            if len(outer): yield 'row', z3.Implies(z3.And(i == outer[0], j >= 0, z3.Or(j < k, z3.And(j >= HG, j < HG+k)), has(i, j)), el == lp(i, j)); yield 'first', z3.Implies(z3.And(i == outer[0], j >= 0, j < k, has(i, j)), el == lp(i, j)); yield 'later', z3.Implies(z3.And(i == outer[0], j >= 0, j < HG+k, has(i, j)), el == lp(i, j)); yield 'others', z3.Implies(i != outer[0], el == el0)
            else: yield 'rows', z3.Implies(z3.And(i >= 0, i < k, j >= 0, j < M, has(i, j)), el == lp(i, j))
        th.mats = mats
        th.elems = lambda eng, el, el0, ix, k, outer: [('products', z3.Implies(z3.And(ix >= 0, ix < k), NVAL(el) == P(ix, M)))] if not len(outer) else []
        f = find1(eng.db, MH+'::MHomogeneous', lambda f: f['params'] and f['params'][0]['t'].startswith('const bertini::System'))
        ok = z3.And(TF == NVS, z3.Not(HP), PO); eng.assume(z3.And(TF >= 0, NVS >= 0))
        try: eng.call_fn(f, o, [Cell(eng, g)])
        except ThrowEx: eng.prove('rejects only what it cannot handle', z3.Not(ok)); return
        eng.prove('accepts only square polynomial systems without path variable', ok); b = lambda x: z3.BoolVal(bool(x)); names = [n for n, _ in th.done if n != 'AddFunction']
        eng.prove('each part is taken from the system given', b(all(v == 'given' for n, v in th.done if n in ('CreateDegreeMatrix', 'GenerateValidPartitions', 'CopyVariableStructure', 'CopyPatches')) and names[:3].count('CreateDegreeMatrix') == 1 and sorted(names[:3]) == ['CopyVariableStructure', 'CreateDegreeMatrix', 'GenerateValidPartitions'] and names.index('CreateDegreeMatrix') < names.index('GenerateValidPartitions')))
        eng.prove('homogenized exactly if the system given is', HO == b('Homogenize' in names)); eng.prove('on the patches of the system given exactly if it is patched', PA == b('CopyPatches' in names))
        eng.assume(z3.And(i1 >= 0, i1 < N, j1 >= 0, j1 < M)); fs, lm = o.f['functions_'].get(), o.f['linprod_matrix_'].get()
        eng.prove('as many functions as the system given', I(fs.size()) == N); eng.prove('function i is the product of the linear factors in all groups it depends on', NVAL(th.term_of(eng, fs.elem(i1))) == P(i1, M))
        eng.prove('the factors of function i in group j: as many as its degree in the group, homogeneous in a projective group', z3.Implies(has(i1, j1), eng.mterm(lm, lm.elem(i1, j1)) == lp(i1, j1)))
    out.append(Group('MHomogeneous(System)', [MH+'::MHomogeneous'], run_ctor, BTheory, setup=info))
    OFF = z3.Function('variables_before_group', Int, Int)
    class CTheory(BTheory):
        def reset(s, eng):
            super().reset(eng); s.pushed = None; q = z3.Int('q'); s.deg_ok = lambda i, j: eng.fact(DEGM(i, j) >= 0)
        def push(s, eng, this, v):
            c = I(s.pushed.get()); q = eng.fresh('q', Int); off = OFF(c); eng.prove('the columns of each group are stored', I(v.size()) == SZ(c)); eng.assume(z3.And(q >= 0, q < SZ(c))); eng.prove('they follow those of the groups before it', I(eng.peek(v, q)) == OFF(c)+q); s.pushed.set(c+1)
    def setup_c(eng):
        info(eng); C = eng.contract_calls; th = eng.theory
        C.pop(MH+'::CreateDegreeMatrix', None)
        def grp(off):
            def el(g): q = Seq(eng, VT, SZ(I(g)+off), lambda i: Ptr(ANode(NULLN))); q.g = I(g)+off; return q
            return el
        C[S+'::HomVariableGroups'] = lambda eng, f, this, e: given(eng, f, this, e, Seq(eng, 'std::vector<%s>' % VT, HG, grp(0), sid=SZ))
        C[S+'::VariableGroups'] = lambda eng, f, this, e: given(eng, f, this, e, Seq(eng, 'std::vector<%s>' % VT, M-HG, grp(HG), sid=SZ))
        def degs(eng, f, this, e):
            if not e['args']: return NotImplemented
            g = eng.lv(e['args'][0]); g = obj(g)
            if not hasattr(g, 'g'): raise Unsupported('group of variables')
            j = g.g; return given(eng, f, this, e, Seq(eng, 'int', N, lambda i: DEGM(I(i), j)))
        C[S+'::Degrees'] = degs
    def run_dm(eng):
        th = eng.theory; g = th.given = Obj(eng, S); o = Obj(eng, MH); o.ghost['built'] = True; th.pushed = th.gh['pushed'] = Cell(eng, z3.IntVal(0), 'pushed')
        o.f['degree_matrix_'] = Cell(eng, Mat(0, 0, lambda i, j: z3.IntVal(0), Int), 'degree_matrix'); o.f['var_groups_'] = Cell(eng, Seq(eng, 'std::vector<%s>' % VT), 'groups'); o.f['variable_cols_'] = Cell(eng, Seq(eng, 'std::vector<unsigned long>'), 'columns')
        eng.fact(OFF(0) == 0); ZC, ZR = z3.Function('row_of_zero_column', Int, Int), z3.Function('column_where_nonzero', Int, Int); NZ = z3.Function('row_where_nonzero', Int, Int)
        def invs(eng, k, outer):
            v = th.named(eng); n = v('var_count')
            if len(outer) == 0:
                eng.fact(z3.Implies(z3.And(k >= 0, k < M), OFF(k+1) == OFF(k)+SZ(k))); eng.fact(z3.Implies(z3.And(k >= 1, k <= M), OFF(k) == OFF(k-1)+SZ(k-1))); eng.fact(SZ(k) >= 0)
                yield 'k<=groups', k <= M; yield 'k<=functions', k <= N
                if n is not None: yield 'variables', I(n) == OFF(k); yield 'pushed', I(th.pushed.get()) == k; yield 'column', I(v('col_count')) == k; yield 'pushed all', I(th.pushed.get()) == M
            else: yield 'k<=size', k <= SZ(outer[0]); yield 'k<=functions', k <= N; yield 'variables', I(n) == OFF(outer[0])+k; yield 'column', I(v('col_count')) == outer[0]
        th.invs = invs
        def mats(eng, el, el0, ix, k, outer):
            i, j = ix; inr = z3.And(i >= 0, i < N, j >= 0)
            if len(outer): yield 'column', z3.Implies(z3.And(inr, j == outer[0], i < k), el == DEGM(i, j)); yield 'others', z3.Implies(j != outer[0], el == el0)
            else: yield 'columns', z3.Implies(z3.And(inr, j < k), el == DEGM(i, j))
        th.mats = mats
        th.elems = lambda eng, el, el0, ix, k, outer: [('columns', z3.Implies(z3.And(ix >= 0, ix < k), el == OFF(outer[0])+ix))] if len(outer) else []
        q = z3.Int('q'); i2, j2 = z3.Int('i2'), z3.Int('j2'); zc = z3.Exists([j2], z3.And(j2 >= 0, j2 < M, z3.ForAll([i2], z3.Implies(z3.And(i2 >= 0, i2 < N), DEGM(i2, j2) == 0)))); zr = z3.Exists([i2], z3.And(i2 >= 0, i2 < N, z3.ForAll([j2], z3.Implies(z3.And(j2 >= 0, j2 < M), DEGM(i2, j2) == 0))))
        try: eng.call_fn(find1(eng.db, MH+'::CreateDegreeMatrix'), o, [Cell(eng, g)])
        except ThrowEx: eng.prove('rejects only systems with a function or a group without degrees', z3.Or(zc, zr)); return
        m = o.f['degree_matrix_'].get(); eng.assume(z3.And(i1 >= 0, i1 < N, j1 >= 0, j1 < M))
        eng.prove('one row per function, one column per group', z3.And(I(m.rows) == N, I(m.cols) == M)); eng.prove('entry (i,j) is the degree of function i in group j', I(m.elem(i1, j1)) == DEGM(i1, j1))
        gs = o.f['var_groups_'].get(); eng.prove('all groups: the projective ones first', z3.And(I(gs.size()) == M, I(gs.elem(j1).g) == j1)); eng.prove('the columns of all groups are stored', I(th.pushed.get()) == M)
    out.append(Group('CreateDegreeMatrix', [MH+'::CreateDegreeMatrix'], run_dm, CTheory, setup=setup_c))
    return out
def product_groups():
    """the value of a product of linear factors, and of the differential of one factor"""
    out = []; LP, DL = PFX+'LinearProduct', PFX+'DiffLinear'; NV, NF = z3.Int('variables_of_product'), z3.Int('factors'); VAR = z3.Function('variable_of_product', Int, Node); HV = z3.Const('homogenizing_variable', Node); CF = z3.Function('coefficient_of_factor', Int, Int, Real); i0 = z3.Int('i0'); NT = 'std::shared_ptr<bertini::node::Variable>'
    NUMT = [('double', 'std::complex<double>', '_d'), ('multiple', 'number<', '_mp')]
    class LTheory(ArrTheory):
        fold_ptr = True
        def reset(s, eng):
            super().reset(eng); s.elems = None; eng.fact(z3.And(NV >= 0, NF >= 0, NV < 2**31-2, NF < 2**31, HV != NULLN)); s.D = z3.Const('dvar', Node); s.stage = 0
        def elem_templates(s, eng, el, el0, ix, k, n): return list(s.elems(eng, el, el0, ix, k, eng.outer)) if s.elems else []
    def obj(v): return v.get() if isinstance(v, (Cell, FnCell, Val)) else v
    def product(eng, cls, rows=None):
        o = Obj(eng, cls); th = eng.theory; ft = {r['name']: r['t'] for r in eng.db.record(cls)['fields']}
        def var(i): t = VAR(I(i)); eng.fact(t != NULLN); return Ptr(ANode(t, PFX+'Variable'))
        o.f['variables_'] = Cell(eng, Seq(eng, NT, NV, var, sid=VAR), 'variables'); o.f['hom_variable_'] = Cell(eng, Ptr(ANode(HV)), 'homogenizing'); o.f['num_variables_'] = Cell(eng, NV); 
        if cls == LP: o.f['num_factors_'] = Cell(eng, NF)
        tp = Tup.__new__(Tup); tp.types = targs_of(strip_t(ft['coeffs_'])); tp.cells = [Cell(eng, Mat(NF if rows is None else rows, NV+1, lambda i, j: CF(I(i), I(j))), 'coefficients') for t in tp.types]; o.f['coeffs_'] = Cell(eng, tp, 'coeffs')
        if cls == LP:
            for n in ('temp_var_d_', 'temp_var_mp_'): F = eng.freshfn(n, Int, Real); o.f[n] = Cell(eng, Seq(eng, targs_of(strip_t(ft[n]))[0], NV+1, lambda i, F=F: F(I(i)), sid=F), n)
        return o
    def setup(eng):
        C = eng.contract_calls; th = eng.theory
        def ev(eng, f, this, e):
            c = eng.lv(e['args'][0]); c.set(EV(th.term_of(eng, Ptr(obj(this))), th.D)); return None
        for n in ('Node::EvalInPlace', 'Variable::EvalInPlace'): C[PFX+n] = ev
    def value(i, j): return CF(i, j)*z3.If(j < NV, EV(VAR(j), z3.Const('dvar', Node)), EV(HV, z3.Const('dvar', Node)))
    ROW = lambda i: Rec('linear_factor', Real, 0, lambda k, x, i=i: x+value(i, k), params=(i,))
    PRODUCT = Rec('product_of_factors', Real, 1, lambda k, x: x*ROW(k).F(k, NV+1))
    for nm, pt, sf in NUMT:
        for inplace in (True, False):
            def run(eng, pt=pt, sf=sf, inplace=inplace):
                th = eng.theory; o = product(eng, LP); th.own = [PRODUCT]; PRODUCT.base(eng); D = th.D
                if not inplace:
                    def fe(eng, f, this, e):      # contract of the overload below
                        if len(e['args']) != 2: return NotImplemented
                        eng.lv(e['args'][0]).set(PRODUCT.F(NF)); eng.prove('of the same product', z3.BoolVal(obj(this) is o)); return None
                    eng.contract_calls[LP+'::FreshEval'+sf] = fe
                th.rec_at = lambda eng, outer: [ROW(outer[-1])] if outer else []
                th.invs = lambda eng, k, outer: [('k<=vars', k <= NV+1)] if outer else [('k<=vars', k <= NV), ('k<=factors', k <= NF)]
                th.elems = lambda eng, el, el0, ix, k, outer: [('values', z3.Implies(z3.And(ix >= 0, ix < k), el == EV(VAR(ix), D))), ('kept', el == el0)]
                f = find1(eng.db, LP+'::FreshEval'+sf, lambda f: len(f['params']) == (2 if inplace else 1)); dv = Cell(eng, Ptr(ANode(D, PFX+'Variable')), 'diff_variable'); r = Cell(eng, Fraction(0), 'value')
                x = eng.call_fn(f, o, [r, dv] if inplace else [dv]); eng.prove('the product over the factors of the sums over the variables and the homogenizing one', R(r.get() if inplace else obj(x)) == PRODUCT.F(NF))
            out.append(Group('LinearProduct: value %s%s' % (nm, '' if inplace else ' returned'), [LP+'::FreshEval'+sf], run, LTheory, setup=setup))
        def run_c(eng, pt=pt):
            th = eng.theory; o = product(eng, LP); ix = z3.Int('index'); eng.assume(z3.And(ix >= 0, ix < NF, i0 >= 0, i0 <= NV)); th.invs = lambda eng, k, outer: [('k<=n', k <= NV+1)]
            th.mats = lambda eng, el, el0, q, k, outer: [('done', z3.Implies(z3.And(q[1] == 0, q[0] >= 0, q[0] < k), el == CF(ix, q[0])))]
            r = obj(eng.call_fn(find1(eng.db, LP+'::GetCoeffs', lambda f: pt in f['targs'][0]), o, [Cell(eng, ix)])); eng.prove('one coefficient per variable and the constant', I(r.rows) == NV+1); eng.prove('those of the factor asked for', R(r.elem(i0, 0)) == CF(ix, i0))
        out.append(Group('LinearProduct: coefficients '+nm, [LP+'::GetCoeffs'], run_c, LTheory, setup=setup))
        def run_d(eng, pt=pt, sf=sf):
            th = eng.theory; o = product(eng, DL, 1); D = th.D; q = z3.Int('q'); dv = Cell(eng, Ptr(ANode(D, PFX+'Variable')), 'diff_variable'); eng.fact(D != NULLN)
            th.invs = lambda eng, k, outer: [('k<=n', k <= NV), ('not before', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), VAR(q) != D), patterns=[VAR(q)]))]
            r = Cell(eng, Fraction(0), 'value'); eng.call_fn(find1(eng.db, DL+'::FreshEval'+sf, lambda f: len(f['params']) == 2), o, [r, dv]); v = R(r.get()); eng.assume(z3.And(i0 >= 0, i0 < NV))
            eng.prove('the coefficient of the first variable that is the one of the derivative', z3.Implies(z3.And(VAR(i0) == D, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < NV, q != i0), VAR(q) != D))), v == CF(0, i0)))
            none = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < NV), VAR(q) != D), patterns=[VAR(q)]); eng.prove('that of the homogenizing variable', z3.Implies(z3.And(none, HV == D), v == CF(0, NV))); eng.prove('zero for any other variable', z3.Implies(z3.And(none, HV != D), v == 0))
        out.append(Group('DiffLinear: value '+nm, [DL+'::FreshEval'+sf], run_d, LTheory, setup=setup))
    return out
def derivative_groups():
    """the derivative of a product of linear factors: the product rule"""
    out = []; LP, DL = PFX+'LinearProduct', PFX+'DiffLinear'; NF = z3.Int('factors'); LIN, DIF, REST = [z3.Function(x, Int, Node) for x in ('factor', 'differential_of_factor', 'other_factors')]; NVAL = z3.Function('value_of_node', Node, Real); TOTAL = z3.Const('sum_node', Node)
    obj = lambda v: v.get() if isinstance(v, (Cell, FnCell, Val)) else v
    class DTheory(MTheory):
        cut = bare = ()
        def reset(s, eng): ArrTheory.reset(s, eng); s.sinv = None; s.gh = {}; s.elems = None; s.last = None; eng.fact(z3.And(NF >= 1, NF < 2**31, TOTAL != NULLN)); s.total = Cell(eng, z3.RealVal(0), 'total'); s.gh['total'] = s.total
    def setup(eng):
        C = eng.contract_calls; th = eng.theory
        def linears(eng, f, this, e):
            a = obj(eng.rv(e['args'][0]))
            if isinstance(a, Seq):
                m, q = th.last, eng.fresh('q', Int); eng.prove('all factors but one', I(a.size()) == NF-1); eng.assume(z3.And(q >= 0, q < NF-1)); eng.prove('the others, each once', I(eng.peek(a, q)) == q+z3.If(q >= m, 1, 0)); n = REST(m); eng.fact(n != NULLN); return Ptr(ANode(n, LP))
            i = I(a); eng.prove('a factor of the product', z3.And(i >= 0, i < NF)); n = LIN(i); eng.fact(n != NULLN); return Ptr(ANode(n, LP))
        C[LP+'::GetLinears'] = linears
        def diff(eng, f, this, e):
            t = th.term_of(eng, eng.rv(e['args'][0]))
            if not (z3.is_app(t) and t.decl().eq(LIN)): raise Unsupported('differential of something else')
            th.last = t.arg(0); n = DIF(th.last); eng.fact(n != NULLN); return Ptr(ANode(n, DL))
        C[DL+'::Make'] = diff
        def node(eng, v): n = eng.fresh('made', Node); eng.fact(z3.And(n != NULLN, NVAL(n) == v)); return Ptr(ANode(n, PFX+'MultOperator'))
        C[PFX+'MultOperator::Make'] = lambda eng, f, this, e: node(eng, NVAL(th.term_of(eng, eng.rv(e['args'][0])))) if len(e['args']) == 1 else NotImplemented
        def mul(eng, f, this, e): c = eng.lv(e['args'][0]); c.set(node(eng, NVAL(th.term_of(eng, c.get()))*NVAL(th.term_of(eng, eng.rv(e['args'][1]))))); return c
        C[PFX+'operator*='] = mul
        def signed(eng, e): v = NVAL(th.term_of(eng, eng.rv(e['args'][0]))); return z3.If(toz(eng.rv(e['args'][1]), BoolS), v, -v)
        def sm(eng, f, this, e): th.total.set(signed(eng, e)); return Ptr(ANode(TOTAL, PFX+'SumOperator'))
        C[PFX+'SumOperator::Make'] = sm
        def add(eng, f, this, e): eng.prove('added to the sum made first', th.term_of(eng, Ptr(obj(this))) == TOTAL); th.total.set(th.total.get()+signed(eng, e)); return None
        C[PFX+'SumOperator::AddOperand'] = add
    def run(eng):
        th = eng.theory; o = Obj(eng, LP); o.f['num_factors_'] = Cell(eng, NF); S_ = Rec('sum_of_products', Real, 0, lambda k, x: x+NVAL(DIF(k))*z3.If(NF == 1, z3.RealVal(1), NVAL(REST(k)))); S_.base(eng); S_.unroll(eng, z3.IntVal(0))
        def invs(eng, k, outer):
            n = I(th.named(eng)('indices').size())
            if len(outer): m = outer[0]+1; yield 'k<=n', k <= NF; yield 'size', n == z3.If(k > m, k-1, k); return
            S_.unroll(eng, k); S_.unroll(eng, k+1); yield 'k<=n', k <= NF-1; yield 'size', n == k; yield 'total', th.total.get() == S_.F(k+1)
        th.invs = invs
        th.elems = lambda eng, el, el0, ix, k, outer: [('others', z3.Implies(z3.And(ix >= 0, ix < z3.If(k > outer[0]+1, k-1, k)), el == ix+z3.If(ix >= outer[0]+1, 1, 0)))] if len(outer) else [('all but the first', z3.Implies(z3.And(ix >= 0, ix < k), el == ix+1))]
        f = find1(eng.db, LP+'::Differentiate'); r = obj(eng.call_fn(f, o, [Cell(eng, Ptr(ANode(z3.Const('v', Node), PFX+'Variable')), 'v')]))
        eng.prove('the sum is returned', th.term_of(eng, r) == TOTAL); eng.prove('the sum over the factors of its differential times the other factors', th.total.get() == S_.F(NF))
    out.append(Group('LinearProduct::Differentiate', [LP+'::Differentiate'], run, DTheory, setup=setup))
    return out
def mhom_groups(): return partition_groups()+point_groups()+build_groups()+product_groups()
