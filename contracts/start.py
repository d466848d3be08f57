"""P10: start systems of total degree; P10/P11 share the mixed-radix subscripts."""
import z3
from engine.symex import *
from engine import models
from engine.verify import Group
from engine.arrtheory import *
from engine.symex import Val
from engine.nodetheory import Node, NULLN, EV, PFX
from .nodes import find1, method
S = 'bertini::start_system::'; TD = S+'TotalDegree'
N = z3.Int('n'); DEG = z3.Function('degree', Int, Int); IDX = z3.Int('index')
PROD = Rec('product_of_degrees', Int, 1, lambda k, x: x*DEG(k))
REM = Rec('remainder', Int, IDX, lambda k, x: x % PROD.F(N-1-k))
def degrees(eng, et='unsigned long long'):
    eng.fact(z3.And(N >= 1, N < 2**31)); q = z3.Int('q'); eng.fact(z3.ForAll([q], DEG(q) >= 1, patterns=[DEG(q)])); eng.fact(z3.ForAll([q], PROD.F(q) >= 1, patterns=[PROD.F(q)]))
    return Seq(eng, et, N, lambda i: DEG(I(i)), sid=DEG)
class RadixTheory(ArrTheory):
    def elem_templates(s, eng, el, el0, ix, k, n): return list(s.elems(eng, el, el0, ix, k, eng.outer)) if getattr(s, 'elems', None) else []
def start_groups():
    out = []
    def run_num(eng):
        o = Obj(eng, TD); o.f['degrees_'] = Cell(eng, degrees(eng), 'degrees'); eng.theory.own = [PROD]; PROD.base(eng); eng.theory.invs = lambda eng, k, outer: [('k<=n', k <= N)]
        eng.prove('as many start points as the product of the degrees', I(eng.call_fn(find1(eng.db, TD+'::NumStartPoints'), o, [])) == PROD.F(N))
    out.append(Group('NumStartPoints', [TD+'::NumStartPoints'], run_num, ArrTheory))
    for t in ('unsigned long', 'unsigned long long'):
        def run_sub(eng, t=t):
            th = eng.theory; d = degrees(eng, t); PROD.base(eng); REM.base(eng); PROD.unroll(eng, N-1); eng.assume(IDX >= 0); m0 = z3.Int('m0')
            eng.own_phase = 0
            def elems(eng, el, el0, ix, k, outer):
                yield 'power', z3.Implies(z3.And(ix >= 0, ix <= k), el == PROD.F(ix)); yield 'later', z3.Implies(ix > k, el == el0)
                yield 'digit', z3.Implies(z3.And(ix >= N-k, ix < N), z3.And(REM.F(N-1-ix) == el*PROD.F(ix) + REM.F(N-ix), el >= 0, el < DEG(ix), REM.F(N-ix) >= 0))
            th.elems = elems; th.own = [PROD, REM]
            th.invs = lambda eng, k, outer: [('k<=n', k <= N), ('k<n', k < N), ('rem', z3.And(REM.F(k) >= 0, REM.F(k) < PROD.F(N-k)))]
            def unroll(eng, k):
                PROD.unroll(eng, k); REM.unroll(eng, k); PROD.unroll(eng, N-1-k)
                eng.fact(z3.Implies(z3.And(k >= 0, k < N), PROD.F(N-k) == PROD.F(N-1-k)*DEG(N-1-k)))
            th.unroll = unroll
            f = find1(eng.db, 'bertini::IndexToSubscript', lambda f: f['targs'] == [t])
            try: r = eng.call_fn(f, None, [Cell(eng, IDX), Cell(eng, d, 'dims')])
            except ThrowEx: eng.prove('rejected only when the index is too large', IDX >= PROD.F(N)); return
            r = r.get() if isinstance(r, Cell) else r
            eng.assume(z3.And(m0 >= 0, m0 < N)); v = I(r.elem(m0)); PROD.unroll(eng, m0)
            eng.prove('one digit per dimension', I(r.size()) == N)
            eng.prove('digits below their dimension', z3.And(v >= 0, v < DEG(m0)))
            eng.prove('the digits are those of the index', REM.F(N-1-m0) == v*PROD.F(m0) + REM.F(N-m0)); eng.prove('no remainder is left', REM.F(N) == 0)
        out.append(Group('IndexToSubscript '+t, ['bertini::IndexToSubscript'], run_sub, RadixTheory))
    SUB = z3.Function('digit', Int, Int); RV = z3.Function('random_value', Int, Node); RES = z3.Function('rescaled', Int, Real); PATCHED = z3.Bool('patched'); i0 = z3.Int('i0')
    def setup(eng):
        C = eng.contract_calls
        C['bertini::DefaultPrecision'] = lambda eng, f, this, e: eng.theory.prec.get() if not e['args'] else eng.theory.prec.set(eng.rv(e['args'][0]))
        C['bertini::Precision'] = lambda eng, f, this, e: [eng.lv(e['args'][0])] and ([eng.rv(a) for a in e['args'][1:]] and None if len(e['args']) > 1 else eng.sym_value('unsigned int', 'precision_of'))
        C['bertini::System::NumVariables'] = lambda eng, f, this, e: N + z3.If(PATCHED, z3.IntVal(1), z3.IntVal(0))
        C['bertini::System::NumNaturalVariables'] = lambda eng, f, this, e: N
        C['bertini::System::IsPatched'] = lambda eng, f, this, e: PATCHED
        def resc(eng, f, this, e):
            c = eng.lv(e['args'][0]); eng.theory.rescaled.append(c.get()); n = c.get().rows; c.set(Mat(n, 1, lambda i, j: RES(I(i)))); return None
        C['bertini::System::RescalePointToFitPatchInPlace'] = resc
        def i2s(eng, f, this, e):
            ix = I(eng.rv(e['args'][0])); d = eng.rv(e['args'][1]); m = eng.fresh('m', Int)
            eng.prove('the index is taken apart by the degrees', z3.And(ix == IDX, I(d.size()) == N, z3.Implies(z3.And(m >= 0, m < N), I(d.elem(m)) == DEG(m))))
            if not eng.branch(ix < PROD.F(N)): raise ThrowEx('std::out_of_range', e['l'])
            return Seq(eng, 'unsigned long long', N, lambda i: SUB(I(i)), sid=SUB)
        C['bertini::IndexToSubscript'] = i2s
        C['bertini::node::Node::Eval'] = lambda eng, f, this, e: eng.theory.ev(eng, this.get() if isinstance(this, (Cell, FnCell, Val)) else this)
    for nm, pt in (('double', 'std::complex<double>'), ('multiple', 'number<')):
        def run_pt(eng, pt=pt):
            th = eng.theory; th.rescaled = []; th.set_precision = lambda *a: None; o = Obj(eng, TD); o.f['degrees_'] = Cell(eng, degrees(eng), 'degrees'); o.f['random_values_'] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Rational>', N, lambda i: Ptr(ANode(RV(I(i)), PFX+'Rational')), sid=RV), 'random')
            acos, exp, pw = models.uf('acos'), models.uf('exp'), models.PWR
            q = z3.Int('q'); eng.fact(z3.ForAll([q], RV(q) != NULLN, patterns=[RV(q)]))
            two_i_pi = R(acos(z3.RealVal(-1)))*R(eng.cplx(Fraction(0), Fraction(2)))
            off = z3.If(PATCHED, z3.IntVal(1), z3.IntVal(0))
            def root(i): return exp(two_i_pi*z3.ToReal(SUB(i))/z3.ToReal(DEG(i)))*pw(EV(RV(i), th.D), 1/z3.ToReal(DEG(i)))
            th.mats = lambda eng, el, el0, ix, k, outer: [('done', z3.Implies(z3.And(ix[1] == 0, ix[0] >= off, ix[0] < off+k), el == root(ix[0]-off))), ('first', z3.Implies(ix[0] < off, el == el0))]
            th.invs = lambda eng, k, outer: [('k<=n', k <= N)]
            f = find1(eng.db, TD+'::GenerateStartPoint', lambda f: pt in f['params'][0]['t'])
            try: r = eng.call_fn(f, o, [Cell(eng, Fraction(0)), Cell(eng, IDX)])
            except ThrowEx: eng.prove('rejected only when the index is too large', IDX >= PROD.F(N)); return
            r = r.get() if isinstance(r, Cell) else r; eng.assume(z3.And(i0 >= 0, i0 < N))
            eng.prove('one coordinate per variable', I(r.rows) == N+off)
            eng.prove('rescaled exactly if patched', PATCHED == z3.BoolVal(len(th.rescaled) == 1))
            if th.rescaled:
                eng.prove('the rescaled point is returned', R(r.elem(i0, 0)) == RES(i0)); r = th.rescaled[0]; eng.prove('the homogenizing coordinate is one before rescaling', R(r.elem(0, 0)) == 1)
            eng.prove('coordinate i is the root of its random value numbered by its digit', R(r.elem(off+i0, 0)) == root(i0))
        out.append(Group('GenerateStartPoint '+nm, [TD+'::GenerateStartPoint'], run_pt, ArrTheory, setup=setup))
    def run_inj(eng):
        A, B, SUB, P = [z3.Function(x, Int, Int) for x in ('remainder_a', 'remainder_b', 'digit', 'place')]; m = z3.Int('m'); eng.assume(z3.And(N >= 1, m >= 0, m < N))
        eng.fact(A(m) == SUB(N-1-m)*P(N-1-m)+A(m+1)); eng.fact(B(m) == SUB(N-1-m)*P(N-1-m)+B(m+1)); eng.fact(A(N) == 0); eng.fact(B(N) == 0)
        eng.prove('equal digits, last remainder', A(N) == B(N)); eng.prove('equal digits, induction step', z3.Implies(A(m+1) == B(m+1), A(m) == B(m)))
    out.append(Group('distinct indices have distinct digits', [], run_inj, ArrTheory))
    return out
def build_groups():
    """the start system itself: one function per variable, x_i^d_i - r_i"""
    out = []; VN = z3.Function('variable', Int, Node); RV = z3.Function('random_value', Int, Node); POWN = z3.Function('integer_power_node', Node, Int, Node); SUBN = z3.Function('difference_node', Node, Node, Node); WRAPF = z3.Function('function_of', Node, Node)
    i0 = z3.Int('i0'); NG = z3.Int('functions_given'); TDEG = z3.Function('degree_of_function', Int, Int)
    VT = 'std::shared_ptr<bertini::node::Variable>'
    class TDTheory(RadixTheory):
        fold_ptr = True
        def reset(s, eng): super().reset(eng); q = z3.Int('q'); eng.fact(z3.ForAll([q], VN(q) != NULLN, patterns=[VN(q)])); eng.fact(z3.ForAll([q], RV(q) != NULLN, patterns=[RV(q)]))
    def node_seq(eng, F, n, et): return Seq(eng, et, n, lambda i: Ptr(ANode(F(I(i)))), sid=F)
    def setup(eng):
        C = eng.contract_calls; th = eng.theory
        t = lambda e: th.term_of(eng, eng.rv(e))
        C['bertini::node::pow'] = lambda eng, f, this, e: Ptr(ANode(POWN(t(e['args'][0]), I(eng.rv(e['args'][1])))))
        C['bertini::node::operator-'] = lambda eng, f, this, e: Ptr(ANode(SUBN(t(e['args'][0]), t(e['args'][1])))) if len(e['args']) == 2 else NotImplemented
        C['bertini::node::Function::Make'] = lambda eng, f, this, e: Ptr(ANode(WRAPF(t(e['args'][0]))))
        def add(eng, f, this, e):
            o = this.get() if isinstance(this, (Cell, FnCell, Val)) else this; c = o.f['functions_']; from engine.models import joined
            c.set(joined(eng, c.get(), 1, lambda i, p=Ptr(ANode(WRAPF(t(e['args'][0])))): p)); return None
        C['bertini::System::AddFunction'] = add
        C['bertini::node::Rational::Rand'] = lambda eng, f, this, e: eng.theory.drawn(eng, 'rational')
        C['bertini::node::Rational::Make'] = lambda eng, f, this, e: Ptr(ANode(z3.Function('rational_node', Real, Node)(R(eng.rv(e['args'][0])))))
        C['bertini::System::Degrees'] = lambda eng, f, this, e: Seq(eng, 'int', NG, lambda i: TDEG(I(i)), sid=TDEG)
    def run_gen(eng):
        th = eng.theory; o = Obj(eng, TD); d = degrees(eng); o.f['degrees_'] = Cell(eng, d, 'degrees'); o.f['random_values_'] = Cell(eng, node_seq(eng, RV, N, 'std::shared_ptr<bertini::node::Rational>'), 'random')
        vs = node_seq(eng, VN, N, VT); o.f['functions_'] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Function>'), 'functions')
        eng.contract_calls['bertini::System::AffineVariableGroup'] = lambda eng, f, this, e: [eng.prove('the only group of variables is used', I(eng.rv(e['args'][0])) == 0), vs.clone()][1]
        want = lambda i: WRAPF(SUBN(POWN(VN(i), DEG(i)), RV(i)))
        th.elems = lambda eng, el, el0, ix, k, outer: [('done', z3.Implies(z3.And(ix >= 0, ix < k), el == want(ix)))]; th.invs = lambda eng, k, outer: [('k<=n', k <= N)]
        eng.call_fn(find1(eng.db, TD+'::GenerateFunctions'), o, []); r = o.f['functions_'].get(); eng.assume(z3.And(i0 >= 0, i0 < N))
        eng.prove('one function per variable', I(r.size()) == N); eng.prove('function i is the power of variable i by degree i less random value i', th.term_of(eng, r.elem(i0)) == want(i0))
    out.append(Group('GenerateFunctions', [TD+'::GenerateFunctions'], run_gen, TDTheory, setup=setup))
    def run_deg(eng):
        th = eng.theory; o = Obj(eng, TD); o.f['degrees_'] = Cell(eng, Seq(eng, 'unsigned long long'), 'degrees'); eng.assume(NG >= 0); q = z3.Int('q'); eng.fact(z3.ForAll([q], TDEG(q) >= 0, patterns=[TDEG(q)]))
        th.elems = lambda eng, el, el0, ix, k, outer: [('done', z3.Implies(z3.And(ix >= 0, ix < k), el == TDEG(ix)))]; th.invs = lambda eng, k, outer: [('k<=n', k <= NG)]
        eng.call_fn(find1(eng.db, TD+'::CopyDegrees'), o, [Cell(eng, Obj(eng, 'bertini::System'))]); r = o.f['degrees_'].get(); eng.assume(z3.And(i0 >= 0, i0 < NG))
        eng.prove('one degree per function', I(r.size()) == NG); eng.prove('degree i is that of function i', I(eng.peek(r, i0)) == TDEG(i0))
    out.append(Group('CopyDegrees', [TD+'::CopyDegrees'], run_deg, TDTheory, setup=setup))
    def run_seed(eng):
        th = eng.theory; o = Obj(eng, TD); o.f['random_values_'] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Rational>'), 'random'); eng.assume(NG >= 0)
        want = lambda i: z3.Function('rational_node', Real, Node)(z3.Function('drawn_rational', Int, Real)(i))
        th.elems = lambda eng, el, el0, ix, k, outer: [('done', z3.Implies(z3.And(ix >= 0, ix < k), el == want(ix)))]; th.invs = lambda eng, k, outer: [('k<=n', k <= NG)]
        eng.call_fn(find1(eng.db, TD+'::SeedRandomValues'), o, [Cell(eng, NG)]); r = o.f['random_values_'].get(); eng.assume(z3.And(i0 >= 0, i0 < NG))
        eng.prove('one random value per function', I(r.size()) == NG); eng.prove('random value i is a number of its own', th.term_of(eng, r.elem(i0)) == want(i0))
    out.append(Group('SeedRandomValues', [TD+'::SeedRandomValues'], run_seed, TDTheory, setup=setup))
    HG, TF, NVS, VG = [z3.Int(x) for x in ('projective_groups', 'total_functions', 'variables', 'affine_groups')]; HP, PO, HO, PA = [z3.Bool(x) for x in ('path_variable', 'polynomial', 'homogeneous', 'patched')]
    def sysinfo(eng):
        C = eng.contract_calls; S_ = 'bertini::System::'
        for n, v in (('NumHomVariableGroups', HG), ('NumTotalFunctions', TF), ('NumVariables', NVS), ('NumVariableGroups', VG), ('HavePathVariable', HP), ('IsPolynomial', PO), ('IsHomogeneous', HO), ('IsPatched', PA), ('NumNaturalFunctions', NG)):
            C[S_+n] = lambda eng, f, this, e, v=v, n=n: [eng.prove(n+' of the system given', z3.BoolVal((this.get() if isinstance(this, (Cell, FnCell, Val)) else this) is eng.theory.given)), v][1]
    def run_sane(eng):
        sysinfo(eng); g = eng.theory.given = Obj(eng, 'bertini::System'); ok = z3.And(HG == 0, TF == NVS, z3.Not(HP), VG == 1, PO)
        eng.assume(z3.And(HG >= 0, TF >= 0, NVS >= 0, VG >= 0))
        try: eng.call_fn(find1(eng.db, TD+'::SanityChecks'), Obj(eng, TD), [Cell(eng, g)])
        except ThrowEx: eng.prove('rejects only what it cannot handle', z3.Not(ok)); return
        eng.prove('accepts only square polynomial systems in one affine group', ok)
    out.append(Group('SanityChecks', [TD+'::SanityChecks'], run_sane, ArrTheory))
    def run_ctor(eng):
        sysinfo(eng); th = eng.theory; g = th.given = Obj(eng, 'bertini::System'); done = []; C = eng.contract_calls
        def mark(n, arg=None):
            def c(eng, f, this, e):
                if e['args']:
                    v = eng.lv(e['args'][0]); v = v.get() if isinstance(v, (Cell, FnCell, Val)) else v; done.append((n, 'given' if v is g else v))
                else: done.append((n, None))
                return None
            return c
        for n in ('SanityChecks', 'CopyDegrees', 'SeedRandomValues', 'GenerateFunctions'): C[TD+'::'+n] = mark(n)
        for n in ('CopyVariableStructure', 'Homogenize', 'CopyPatches'): C['bertini::System::'+n] = mark(n)
        C['bertini::System::System'] = lambda eng, f, this, e: None; C['bertini::start_system::StartSystem::StartSystem'] = lambda eng, f, this, e: None
        o = Obj(eng, TD); o.ghost['built'] = True
        f = find1(eng.db, TD+'::TotalDegree', lambda f: 'System const' in f['params'][0]['t'] or f['params'][0]['t'].startswith('const bertini::System') if f['params'] else False)
        eng.call_fn(f, o, [Cell(eng, g)]); b = lambda x: z3.BoolVal(bool(x)); names = [n for n, _ in done]; at = lambda n: names.index(n) if n in names else -1
        given = all(v == 'given' for n, v in done if n in ('SanityChecks', 'CopyDegrees', 'CopyVariableStructure', 'CopyPatches'))
        eng.prove('checked first, all parts taken from the system given', b(names[:1] == ['SanityChecks'] and given and all(names.count(n) == 1 for n in ('SanityChecks', 'CopyDegrees', 'CopyVariableStructure', 'SeedRandomValues', 'GenerateFunctions'))))
        eng.prove('functions are made of the copied degrees, variables and random values', b(max(at('CopyDegrees'), at('CopyVariableStructure'), at('SeedRandomValues')) < at('GenerateFunctions')))
        eng.prove('as many random values as functions', I([v for n, v in done if n == 'SeedRandomValues'][0]) == NG if at('SeedRandomValues') >= 0 else b(False))
        eng.prove('homogenized exactly if the system given is', HO == b('Homogenize' in names and at('Homogenize') > at('GenerateFunctions'))); eng.prove('on the patches of the system given exactly if it is patched', PA == b('CopyPatches' in names))
    out.append(Group('TotalDegree(System)', [TD+'::TotalDegree'], run_ctor, ArrTheory))
    return out
def td_groups(): return start_groups()+build_groups()
