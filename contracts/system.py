"""P08: evaluation of systems."""
import z3
from engine.symex import *
from engine.verify import Group
from engine.arrtheory import *
from engine.nodetheory import Node, NULLN, EV, DIFF, PFX
from engine.vectheory import enum_value
from .nodes import find1, method
S = 'bertini::System'
NF, NV, NP = z3.Int('functions'), z3.Int('variables'), z3.Int('patches')
FUN, JAC, TDV, VARS = [z3.Function(n, Int, Node) for n in ('function', 'jacobian', 'time_derivative', 'variable')]
SDV = z3.Function('space_derivative', Int, Node); PV = z3.Const('path_variable', Node)
WRAP = z3.Function('wrap', Node, Node); ENTRY = z3.Function('entry', Node, Node)
VALF = z3.Function('value_of_function', Int, Real); DVAL = z3.Function('derivative_of_function', Int, Int, Real); DT = z3.Function('time_derivative_of_function', Int, Real)
JV = z3.Function('jacobian_node_value', Int, Node, Real); X = z3.Function('x', Int, Real); T0 = z3.Real('t')
PATCH = z3.Function('patch_value', Int, Real); PATCHJ = z3.Function('patch_jacobian', Int, Int, Real)
PATCHED, HAVEP = z3.Bool('patched'), z3.Bool('have_path_variable')
g0, i0, j0 = z3.Int('g0'), z3.Int('i0'), z3.Int('j0')
KINDS = (('double', 'std::complex<double>'), ('multiple', 'number<'))
class SysTheory(ArrTheory):
    fold_ptr = True
    def reset(s, eng):
        super().reset(eng); s.elems = None; s.st = {}
        s.lists = {}
        for F, n in ((FUN, NF), (JAC, NF), (TDV, NF), (SDV, NF*NV)):
            f0 = z3.Function('fresh_before_'+F.name(), Int, Real); s.lists[F.name()] = Cell(eng, Mat(n, 1, lambda i, j, f0=f0: f0(I(i))), 'fresh_'+F.name())
        cu = z3.Function('variable_before', Int, Real); s.cur = Cell(eng, Mat(NV, 1, lambda i, j: cu(I(i))), 'current'); s.path = Cell(eng, z3.Real('path_before'), 'path')
        eng.fact(z3.And(NF >= 0, NV >= 0, NP >= 0, NF < 2**31, NV < 2**31, NP < 2**31, z3.Not(HAVEP) if False else z3.BoolVal(True)))
        eng.fact(z3.Implies(z3.Not(PATCHED), NP == 0))
        q, r = z3.Int('q'), z3.Int('r')
        for F in (FUN, JAC, TDV, SDV, VARS): eng.fact(z3.ForAll([q], F(q) != NULLN, patterns=[F(q)]))
        eng.fact(PV != NULLN)
        eng.fact(z3.ForAll([q, r], JV(q, VARS(r)) == DVAL(q, r), patterns=[JV(q, VARS(r))])); eng.fact(z3.ForAll([q], JV(q, PV) == DT(q), patterns=[JV(q, PV)]))
    def elem_templates(s, eng, el, el0, ix, k, n): return list(s.elems(eng, el, el0, ix, k, eng.outer)) if s.elems else []
    def place(s, a):
        t = a.term
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in s.lists: return t.decl().name(), t.arg(0)
        return None, None
    def write(s, cell, i, v):
        m = cell.get(); old = m.elem
        cell.set(Mat(m.rows, 1, lambda a, b: z3.If(I(a) == i, R(v), R(old(a, b)))))
    def value(s, eng, F, i):
        if F == FUN.name(): return VALF(i)
        if F == TDV.name(): return DT(i)
        if F == SDV.name():
            v = z3.Function('space_derivative_value', Int, Real); q, r = z3.Int('q'), z3.Int('r')
            if z3.is_app(i) and eng.loopk and len(eng.loopk) == 2:      # i = a + b*NF for the loop counters b (outer), a (inner)
                b, a = eng.loopk; eng.fact(z3.Implies(z3.And(a >= 0, a < NF), v(a+b*NF) == DVAL(a, b)))
            return v(i)
        raise Unsupported('value of '+F)
    def anode_call(s, eng, a, f, args):
        n = f['n']; F, i = s.place(a); t = a.term
        if F and n == 'Reset': s.write(s.lists[F], i, 1); return None
        if F and n in ('EvalInPlace', 'EvalJInPlace'):
            out = eng.lv(args[0]); fr = R(s.lists[F].get().elem(i, 0)) == 1; stale = z3.Function('stale_'+F, Int, Real)
            v = s.value(eng, F, i) if n == 'EvalInPlace' else JV(i, s.term_of(eng, eng.rv(args[1])))
            out.set(z3.If(fr, v, stale(i))); return None
        if n in ('set_current_value', 'SetToRandUnit', 'Eval') and (t.eq(PV) or (z3.is_app(t) and t.decl().eq(VARS))):
            isp = t.eq(PV); i = None if isp else t.arg(0)
            if n == 'Eval': return s.path.get() if isp else s.cur.get().elem(i, 0)
            v = eng.coerce(eng.rv(args[0]), 'double') if n == 'set_current_value' else eng.fresh('random', Real)
            if isp: s.path.set(v)
            else: s.write(s.cur, i, v)
            for c in s.lists.values(): m = c.get(); c.set(Mat(m.rows, 1, lambda i, j: Fraction(0)))
            return None
        if n == 'precision': return None if args else eng.fresh('precision', Int)
        if n == 'Differentiate': return Ptr(ANode(DIFF(t, s.term_of(eng, eng.rv(args[0])) if args else NULLN)))
        if n == 'EntryNode': return Ptr(ANode(ENTRY(t)))
        if n == 'name': return Opaque('str')
        return super().anode_call(eng, a, f, args)
def nodes(eng, F, n, et): return Seq(eng, et, n, lambda i: Ptr(ANode(F(I(i)))), sid=F)
FT_ = lambda eng: enum_value(eng.db, 'EvalMethod::FunctionTree'); DER = lambda eng: enum_value(eng.db, 'DerivMethod::Derivatives')
def lists(eng, o):
    o.f['jacobian_'] = Cell(eng, nodes(eng, JAC, NF, 'std::shared_ptr<bertini::node::Jacobian>'), 'jacobian'); o.f['space_derivatives_'] = Cell(eng, nodes(eng, SDV, NF*NV, 'std::shared_ptr<bertini::node::Node>'), 'space'); o.f['time_derivatives_'] = Cell(eng, nodes(eng, TDV, NF, 'std::shared_ptr<bertini::node::Node>'), 'time')
def system(eng, cls=S):
    o = Obj(eng, cls); c = lambda n, v: o.f.__setitem__(n, Cell(eng, v, n))
    c('functions_', nodes(eng, FUN, NF, 'std::shared_ptr<bertini::node::Function>')); c('variable_ordering_', nodes(eng, VARS, NV, 'std::shared_ptr<bertini::node::Variable>')); c('have_ordering_', z3.Bool('have_ordering'))
    lists(eng, o); c('is_differentiated_', z3.Bool('is_differentiated')); c('is_patched_', PATCHED); c('have_path_variable_', HAVEP); c('path_variable_', Ptr(ANode(PV)))
    ft = {x['name']: x['t'] for x in eng.db.record(S)['fields']}; tp = Tup.__new__(Tup); tp.types = targs_of(strip_t(ft['current_variable_values_']))
    XO = z3.Function('x_before', Int, Real)
    tp.cells = [Cell(eng, Mat(NV, 1, lambda i, j: XO(I(i))), 'current_values') for t in tp.types]; c('current_variable_values_', tp)
    c('patch_', Obj(eng, 'bertini::Patch')); c('slp_', Obj(eng, 'bertini::StraightLineProgram')); c('eval_method_', eng.fresh('eval_method', Int)); c('deriv_method_', eng.fresh('deriv_method', Int))
    em, dm = o.f['eval_method_'].get(), o.f['deriv_method_'].get()
    eng.fact(z3.Or(em == FT_(eng), em == enum_value(eng.db, 'EvalMethod::SLP'))); eng.fact(z3.Or(dm == DER(eng), dm == enum_value(eng.db, 'DerivMethod::JacobianNode')))
    return o
def curvals(eng, o, cp):
    tp = o.f['current_variable_values_'].get()
    return [c for t, c in zip(tp.types, tp.cells) if cp in t][0].get()
def lib(eng, want=()):
    C = eng.contract_calls; th = eng.theory
    C['bertini::DefaultPrecision'] = lambda eng, f, this, e: th.prec.get() if not e['args'] else th.prec.set(eng.rv(e['args'][0]))
    C['bertini::Precision'] = lambda eng, f, this, e: [eng.lv(e['args'][0])] and ([eng.rv(a) for a in e['args'][1:]] and None if len(e['args']) > 1 else eng.sym_value('unsigned int', 'precision_of'))
    C['bertini::Patch::NumVariableGroups'] = lambda eng, f, this, e: NP
    C[S+'::NumVariables'] = lambda eng, f, this, e: NV
    C[S+'::NumTotalVariableGroups'] = lambda eng, f, this, e: NP      # as many as patches when patched
    def diff(eng, f, this, e):
        o = this.get() if isinstance(this, (Cell, FnCell, Val)) else this
        lists(eng, o); o.f['is_differentiated_'].set(True)
        for F in (JAC, TDV, SDV): m = th.lists[F.name()]; mm = m.get(); m.set(Mat(mm.rows, 1, lambda i, j: Fraction(1)))
        return None
    C[S+'::Differentiate'] = diff
    def ordering(eng, f, this, e):
        o = this.get() if isinstance(this, (Cell, FnCell, Val)) else this
        o.f['variable_ordering_'].set(nodes(eng, VARS, NV, 'std::shared_ptr<bertini::node::Variable>')); o.f['have_ordering_'].set(True); return None
    C[S+'::ConstructOrdering'] = ordering
    def fill(what):
        def go(eng, f, this, e):
            c = eng.lv(e['args'][0]); m = c.get(); old = m.elem
            V = {'f': lambda i, j: VALF(i), 'j': lambda i, j: DVAL(i, j), 't': lambda i, j: DT(i)}[what]
            c.set(Mat(m.rows, m.cols, lambda i, j: z3.If(z3.And(I(i) >= 0, I(i) < NF), V(I(i), I(j)), R(old(i, j))))); th.st['slp'] = True; return None
        return go
    L = 'bertini::StraightLineProgram::'
    C[L+'GetFuncValsInPlace'] = fill('f'); C[L+'GetJacobianInPlace'] = fill('j'); C[L+'GetTimeDerivInPlace'] = fill('t')
    def slpset(key):
        def go(eng, f, this, e): th.st[key] = eng.rv(e['args'][0]); return None
        return go
    C[L+'SetVariableValues'] = slpset('slpvars'); C[L+'SetPathVariable'] = slpset('slppath')
    def patch(jac):
        def go(eng, f, this, e):
            c = eng.lv(e['args'][0]); m = c.get(); x = eng.rv(e['args'][1]); old = m.elem; q = eng.fresh('entry', Int)
            eng.prove('the patch is evaluated at the current point', z3.And(I(x.rows) == NV, z3.Implies(z3.And(q >= 0, q < NV), R(x.elem(q, 0)) == X(q))))
            off = I(m.rows) - NP
            c.set(Mat(m.rows, m.cols, lambda i, j: z3.If(I(i) >= off, PATCHJ(I(i)-off, I(j)) if jac else PATCH(I(i)-off), R(old(i, j))))); return None
        return go
    C['bertini::Patch::EvalInPlace'] = patch(False); C['bertini::Patch::JacobianInPlace'] = patch(True)
def iscur(eng, o, cp):
    """precondition of the evaluations without point: the current values are those of the point, cached values are current"""
    tp = o.f['current_variable_values_'].get()
    for t, c in zip(tp.types, tp.cells):
        if cp in t: c.set(Mat(NV, 1, lambda i, j: X(I(i))))
    for F, n in ((FUN, NF), (JAC, NF), (TDV, NF), (SDV, NF*NV)): eng.theory.lists[F.name()].v = Mat(n, 1, lambda i, j: Fraction(1))
def pick(eng, name, cp, *kinds):
    """overload by the kinds of its parameters: v vector, b vector expression, m matrix, s scalar, B matrix expression"""
    def kind(t): return 'b' if 'MatrixBase' in t else ('m' if ', -1, -1' in t else 'v') if 'Eigen::Matrix<' in t else 's'
    return find1(eng.db, S+'::'+name, lambda f: tuple(kind(p['t']) for p in f['params']) == kinds and cp in str(f.get('targs')))
def eval_groups():
    out = []; old = z3.Function('old', Int, Int, Real)
    for nm, cp in KINDS:
        def run_eval(eng, cp=cp):
            o = system(eng); th = eng.theory; iscur(eng, o, cp); rows = eng.fresh('rows', Int); eng.assume(rows >= 0)
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix; yield 'done', z3.Implies(z3.And(j == 0, i >= 0, i < k), el == VALF(i)); yield 'rest', z3.Implies(i >= k, el == el0)
            th.mats = mats; th.invs = lambda eng, k, outer: [('k<=n', k <= NF)]
            r = Cell(eng, Mat(rows, 1, lambda i, j: old(I(i), I(j))), 'values')
            try: eng.call_fn(pick(eng, 'EvalInPlace', cp, 'v'), o, [r])
            except ThrowEx: eng.prove('rejected only when the length is wrong', rows != NF+NP); return
            m = r.get(); eng.assume(z3.And(i0 >= 0, i0 < NF)); eng.assume(z3.And(j0 >= 0, j0 < NP))
            eng.prove('entry i is function i', R(m.elem(i0, 0)) == VALF(i0)); eng.prove('the length is kept', I(m.rows) == NF+NP)
            eng.prove('the last entries are the patches', R(m.elem(NF+j0, 0)) == PATCH(j0))
        out.append(Group('EvalInPlace '+nm, [S+'::EvalInPlace'], run_eval, SysTheory, setup=lib))
        def run_jac(eng, cp=cp):
            o = system(eng); th = eng.theory; iscur(eng, o, cp); rows, cols = eng.fresh('rows', Int), eng.fresh('cols', Int); eng.assume(z3.And(rows >= 0, cols >= 0))
            byrow = {'v': None}
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix; ok = z3.And(i >= 0, j >= 0, i < NF, j < NV)
                yield 'rows', z3.Implies(z3.And(ok, z3.Or(i < outer[-1], z3.And(i == outer[-1], j < k)) if outer else i < k), el == DVAL(i, j))
                yield 'cols', z3.Implies(z3.And(ok, z3.Or(j < outer[-1], z3.And(j == outer[-1], i < k)) if outer else j < k), el == DVAL(i, j))
                yield 'rest', z3.Implies(i >= NF, el == el0)
                yield 'fresh', z3.Implies(el0 == 1, el == 1)
            th.mats = mats; th.invs = lambda eng, k, outer: [('k<=n', k <= NF), ('k<=v', k <= NV)]
            r = Cell(eng, Mat(rows, cols, lambda i, j: old(I(i), I(j))), 'J')
            try: eng.call_fn(pick(eng, 'JacobianInPlace', cp, 'm'), o, [r])
            except ThrowEx: eng.prove('rejected only when the shape is wrong', z3.Or(rows != NF+NP, cols != NV)); return
            m = r.get(); eng.assume(z3.And(i0 >= 0, i0 < NF, j0 >= 0, j0 < NV)); eng.assume(z3.And(g0 >= 0, g0 < NP))
            eng.prove('entry (i,j) is the derivative of function i by variable j', R(m.elem(i0, j0)) == DVAL(i0, j0)); eng.prove('the shape is kept', z3.And(I(m.rows) == NF+NP, I(m.cols) == NV))
            eng.prove('the last rows are the patches', R(m.elem(NF+g0, j0)) == PATCHJ(g0, j0))
        out.append(Group('JacobianInPlace '+nm, [S+'::JacobianInPlace'], run_jac, SysTheory, setup=lib, limit=300))
        def run_time(eng, cp=cp):
            o = system(eng); th = eng.theory; iscur(eng, o, cp); rows = eng.fresh('rows', Int); eng.assume(rows == NF+NP)
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix; yield 'done', z3.Implies(z3.And(j == 0, i >= 0, i < k), el == DT(i)); yield 'rest', z3.Implies(i >= k, el == el0)
                yield 'patch', z3.Implies(z3.And(j == 0, i >= NF, i < NF+k), el == 0); yield 'first', z3.Implies(i < NF, el == el0)
                yield 'fresh', z3.Implies(el0 == 1, el == 1)
            th.mats = mats; th.invs = lambda eng, k, outer: [('k<=n', k <= NF), ('k<=p', k <= NP)]
            r = Cell(eng, Mat(rows, 1, lambda i, j: old(I(i), I(j))), 'ds_dt')
            try: eng.call_fn(pick(eng, 'TimeDerivativeInPlace', cp, 'v'), o, [r])
            except ThrowEx: eng.prove('rejected only without path variable', z3.Not(HAVEP)); return
            m = r.get(); eng.assume(z3.And(i0 >= 0, i0 < NF)); eng.assume(z3.And(j0 >= 0, j0 < NP))
            eng.prove('entry i is the derivative of function i by the path variable', R(m.elem(i0, 0)) == DT(i0)); eng.prove('patches do not depend on it', R(m.elem(NF+j0, 0)) == 0); eng.prove('the length is kept', I(m.rows) == NF+NP)
        out.append(Group('TimeDerivativeInPlace '+nm, [S+'::TimeDerivativeInPlace'], run_time, SysTheory, setup=lib))
        def run_set(eng, cp=cp):
            o = system(eng); th = eng.theory; n = eng.fresh('length', Int); eng.assume(n >= 0)
            th.mats = lambda eng, el, el0, ix, k, outer: [('set', z3.Implies(z3.And(ix[1] == 0, ix[0] >= 0, ix[0] < k), el == X(ix[0])))]
            th.invs = lambda eng, k, outer: [('k<=n', k <= NV)]
            try: eng.call_fn(pick(eng, 'SetVariables', cp, 'v'), o, [Cell(eng, Mat(n, 1, lambda i, j: X(I(i))), 'new_values')])
            except ThrowEx:
                if cp == 'std::complex<double>': eng.prove('rejected only when the length is wrong', n != NV)
                return
            eng.assume(z3.And(i0 >= 0, i0 < NV)); m = curvals(eng, o, cp)
            eng.prove('the point is kept for the patches', z3.And(I(m.rows) == NV, R(m.elem(i0, 0)) == X(i0))); eng.prove('differentiated', toz(o.f['is_differentiated_'].get()) == True)
            if eng.branch(o.f['eval_method_'].get() == FT_(eng)): eng.prove('every variable has its value', R(th.cur.get().elem(i0, 0)) == X(i0))
            else: v = th.st.get('slpvars'); eng.prove('the program has the point', z3.BoolVal(False) if v is None else z3.And(I(v.rows) == NV, R(v.elem(i0, 0)) == X(i0)))
        out.append(Group('SetVariables '+nm, [S+'::SetVariables'], run_set, SysTheory, setup=lib))
        def run_path(eng, cp=cp):
            o = system(eng); th = eng.theory
            try: eng.call_fn(pick(eng, 'SetPathVariable', cp, 's'), o, [Cell(eng, T0)])
            except ThrowEx: eng.prove('rejected only without path variable', z3.Not(HAVEP)); return
            eng.prove('the path variable has its value', R(th.path.get()) == T0)
            if not eng.branch(o.f['eval_method_'].get() == FT_(eng)): v = th.st.get('slppath'); eng.prove('the program has the time', z3.BoolVal(False) if v is None else R(v) == T0)
        out.append(Group('SetPathVariable '+nm, [S+'::SetPathVariable'], run_path, SysTheory, setup=lib))
    def run_reset(eng):
        o = system(eng); th = eng.theory
        th.mats = lambda eng, el, el0, ix, k, outer: [('reset', z3.Implies(z3.And(ix[1] == 0, ix[0] >= 0, ix[0] < k), el == 1)), ('kept', z3.Implies(el0 == 1, el == 1))]
        eng.call_fn(find1(eng.db, S+'::Reset'), o, []); fr = lambda F, i: R(th.lists[F.name()].get().elem(i, 0)) == 1
        eng.assume(z3.And(i0 >= 0, i0 < NF)); eng.assume(z3.And(j0 >= 0, j0 < NF*NV))
        if not eng.branch(o.f['eval_method_'].get() == FT_(eng)): return
        eng.prove('every function is evaluated anew', fr(FUN, i0))
        if eng.branch(o.f['deriv_method_'].get() == DER(eng)): eng.prove('every derivative is evaluated anew', z3.And(fr(SDV, j0), fr(TDV, i0)))
        else: eng.prove('every differential is evaluated anew', fr(JAC, i0))
    out.append(Group('Reset', [S+'::Reset', S+'::ResetFunctions', S+'::ResetJacobian', S+'::ResetTimeDerivatives'], run_reset, SysTheory, setup=lib))
    return out
def top_lib(eng, want=()):
    """contracts of setting a point and of the evaluations at the point set, for the entry points"""
    lib(eng); C = eng.contract_calls; th = eng.theory
    def setv(eng, f, this, e):
        x = eng.rv(e['args'][0])
        if not eng.branch(I(x.rows) == NV): raise ThrowEx('std::runtime_error', e['l'])
        th.st['vars'] = x; th.st['fresh'] = False; return None
    C[S+'::SetVariables'] = setv
    def setp(eng, f, this, e):
        t = eng.rv(e['args'][0])
        if not eng.branch(HAVEP): raise ThrowEx('std::runtime_error', e['l'])
        th.st['path'] = R(t); th.st['fresh'] = False; return None
    C[S+'::SetPathVariable'] = setp
    C[S+'::Reset'] = lambda eng, f, this, e: th.st.__setitem__('fresh', True)
    def go(what):
        def ev(eng, f, this, e):
            if len(e['args']) != 1: return NotImplemented
            c = eng.lv(e['args'][0]); m = c.get(); q = eng.fresh('entry', Int)
            if what == 'T':
                if not eng.branch(HAVEP): raise ThrowEx('std::runtime_error', e['l'])
                if not eng.branch(I(m.rows) >= NF): raise ThrowEx('std::runtime_error', e['l'])
                eng.prove('room for the patches', I(m.rows) == NF+NP)
            elif not eng.branch(z3.And(I(m.rows) == NF+NP, I(m.cols) == NV) if what == 'J' else I(m.rows) == NF+NP): raise ThrowEx('std::runtime_error', e['l'])
            x = th.st.get('vars'); p = th.st.get('path')
            eng.prove('evaluated at the point given', z3.And(I(x.rows) == NV, z3.Implies(z3.And(q >= 0, q < NV), R(x.elem(q, 0)) == X(q))) if x is not None else z3.BoolVal(False))
            if th.st.get('timed'): eng.prove('evaluated at the time given', p == T0 if p is not None else z3.BoolVal(False))
            eng.prove('nothing cached from an earlier point is used', z3.BoolVal(bool(th.st.get('fresh'))))
            V = {'F': lambda i, j: z3.If(I(i) < NF, VALF(I(i)), PATCH(I(i)-NF)), 'J': lambda i, j: z3.If(I(i) < NF, DVAL(I(i), I(j)), PATCHJ(I(i)-NF, I(j))), 'T': lambda i, j: z3.If(I(i) < NF, DT(I(i)), z3.RealVal(0))}[what]
            c.set(Mat(m.rows, m.cols, V)); return None
        return ev
    for n, w in (('EvalInPlace', 'F'), ('JacobianInPlace', 'J'), ('TimeDerivativeInPlace', 'T')): C[S+'::'+n] = go(w)
TOP = [('EvalInPlace', 'vb'), ('EvalInPlace', 'vbs'), ('Eval', ''), ('Eval', 'b'), ('Eval', 'v'), ('Eval', 'bs'), ('Eval', 'vs'),
       ('JacobianInPlace', 'mv'), ('JacobianInPlace', 'mbs'), ('Jacobian', ''), ('Jacobian', 'v'), ('Jacobian', 'bs'), ('Jacobian', 'vs'),
       ('TimeDerivativeInPlace', 'vbs'), ('TimeDerivativeInPlace', 'vb'), ('TimeDerivative', ''), ('TimeDerivative', 'b'), ('TimeDerivative', 'bs')]
def top_groups():
    """every entry point evaluates at the point and time it is given and returns the values of exactly the functions and patches"""
    out = []; old = z3.Function('old', Int, Int, Real)
    for nm, cp in KINDS:
        for name, kinds in TOP:
            def run(eng, cp=cp, name=name, kinds=kinds):
                o = system(eng); th = eng.theory; what = name[0].replace('E', 'F'); out_ = name.endswith('InPlace'); ks = kinds[1:] if out_ else kinds
                th.st['timed'] = 's' in ks or not ks and eng.branch(HAVEP)
                n = eng.fresh('length', Int); eng.assume(n >= 0); point = Mat(n, 1, lambda i, j: X(I(i)))
                if what == 'T': eng.assume(n == NV)
                if 's' not in ks: th.st['path'] = T0      # set before
                if not ks: th.st['vars'] = Mat(NV, 1, lambda i, j: X(I(i))); th.st['fresh'] = True
                a = []; rows, cols = eng.fresh('rows', Int), eng.fresh('cols', Int); eng.assume(z3.And(rows >= 0, cols >= 0))
                if what == 'T': eng.assume(rows == NF+NP)
                if out_: a.append(Cell(eng, Mat(rows, cols if what == 'J' else 1, lambda i, j: old(I(i), I(j))), 'result'))
                if 'b' in ks or 'v' in ks: a.append(Cell(eng, point, 'point'))
                if 's' in ks: a.append(Cell(eng, T0, 'time'))
                try: r = eng.call_fn(pick(eng, name, cp, *kinds), o, a)
                except ThrowEx:
                    bad = [n != NV] if ks else []
                    if 's' in ks: bad.append(z3.Not(HAVEP))
                    elif what == 'T': bad.append(z3.Not(HAVEP))
                    elif ks: bad.append(HAVEP)
                    if out_: bad.append(z3.Or(rows != NF+NP, cols != NV) if what == 'J' else rows != NF+NP)
                    eng.prove('rejected only for a wrong shape or a path variable not as expected', z3.Or(*bad) if bad else z3.BoolVal(False)); return
                r = a[0].get() if out_ else r.get() if isinstance(r, Cell) else r
                eng.assume(z3.And(i0 >= 0, i0 < NF)); eng.assume(z3.And(g0 >= 0, g0 < NP)); eng.assume(z3.And(j0 >= 0, j0 < NV))
                jj = j0 if what == 'J' else 0
                eng.prove('shape', z3.And(I(r.rows) == NF+NP, I(r.cols) == (NV if what == 'J' else 1)))
                eng.prove('entries of the functions', R(r.elem(i0, jj)) == (VALF(i0) if what == 'F' else DVAL(i0, j0) if what == 'J' else DT(i0)))
                eng.prove('entries of the patches', R(r.elem(NF+g0, jj)) == (PATCH(g0) if what == 'F' else PATCHJ(g0, j0) if what == 'J' else 0))
            out.append(Group('%s(%s) %s' % (name, ','.join(kinds), nm), [S+'::'+name], run, SysTheory, setup=top_lib))
        for kinds in ('v', 'vs'):
            def run_sr(eng, cp=cp, kinds=kinds):
                o = system(eng); th = eng.theory; n = eng.fresh('length', Int); eng.assume(n >= 0); a = [Cell(eng, Mat(n, 1, lambda i, j: X(I(i))), 'point')] + ([Cell(eng, T0, 'time')] if kinds == 'vs' else [])
                try: eng.call_fn(pick(eng, 'SetAndReset', cp, *kinds), o, a)
                except ThrowEx: eng.prove('rejected only for a wrong length or without path variable', z3.Or(n != NV, z3.Not(HAVEP)) if kinds == 'vs' else n != NV); return
                x = th.st.get('vars'); eng.assume(z3.And(i0 >= 0, i0 < NV))
                eng.prove('the point is set', z3.And(I(x.rows) == NV, R(x.elem(i0, 0)) == X(i0)) if x is not None else z3.BoolVal(False))
                if kinds == 'vs': eng.prove('the time is set', th.st['path'] == T0 if 'path' in th.st else z3.BoolVal(False))
                eng.prove('nothing cached is kept', z3.BoolVal(bool(th.st.get('fresh'))))
            out.append(Group('SetAndReset(%s) %s' % (','.join(kinds), nm), [S+'::SetAndReset'], run_sr, SysTheory, setup=top_lib))
    return out
def diff_lib(eng, want=()):
    lib(eng); C = eng.contract_calls; th = eng.theory
    C.pop(S+'::Differentiate')
    def make(eng, f, this, e): return Ptr(ANode(WRAP(th.term_of(eng, eng.rv(e['args'][0])))))
    C['bertini::node::Jacobian::Make'] = make; C['bertini::node::Function::Make'] = make
    def differentiate(eng, f, this, e):
        o = this.get() if isinstance(this, (Cell, FnCell, Val)) else this; a = [eng.rv(x) for x in e['args']]
        return Ptr(ANode(DIFF(th.term_of(eng, o), th.term_of(eng, a[0]) if a else NULLN)))
    C['bertini::node::Node::Differentiate'] = differentiate
def diff_groups():
    out = []
    def run_jn(eng):
        o = system(eng); th = eng.theory; o.f['jacobian_'] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Jacobian>', eng.fresh('jacobians_before', Int), lambda i: Ptr(ANode(JAC(I(i)))), sid=JAC), 'jacobian')
        eng.assume(I(o.f['jacobian_'].get().size()) >= 0)
        th.elems = lambda eng, el, el0, ix, k, outer: [('done', z3.Implies(z3.And(ix >= 0, ix < k), el == WRAP(DIFF(FUN(ix), NULLN))))]; th.invs = lambda eng, k, outer: [('k<=n', k <= NF)]
        eng.call_fn(find1(eng.db, S+'::DifferentiateUsingJacobianNode'), o, []); r = o.f['jacobian_'].get(); eng.assume(z3.And(i0 >= 0, i0 < NF))
        eng.prove('one differential per function', I(r.size()) == NF); eng.prove('differential i is that of function i', th.term_of(eng, r.elem(i0)) == WRAP(DIFF(FUN(i0), NULLN))); eng.prove('marked as differentiated', toz(o.f['is_differentiated_'].get()) == True)
    out.append(Group('DifferentiateUsingJacobianNode', [S+'::DifferentiateUsingJacobianNode'], run_jn, SysTheory, setup=diff_lib))
    def run_d(eng):
        o = system(eng); th = eng.theory
        for m, G in (('space_derivatives_', SDV), ('time_derivatives_', TDV)):
            o.f[m] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Node>', eng.fresh(m+'before', Int), lambda i, G=G: Ptr(ANode(G(I(i)))), sid=G), m); eng.assume(I(o.f[m].get().size()) >= 0)
        SP = lambda i, j: WRAP(DIFF(FUN(i), VARS(j)))
        b = z3.Int('b0'); a = z3.Int('a0')      # the arbitrary derivative looked at: function a0, variable b0
        eng.assume(z3.And(a >= 0, a < NF, b >= 0, b < NV)); th.V = None
        def elems(eng, el, el0, ix, k, outer):
            # the place of derivative (a0,b0) is written in pass b0 of the outer loop, pass a0 of the inner one
            done = z3.Or(outer[-1] > b, z3.And(outer[-1] == b, k > a)) if outer else k > b
            yield 'derivative', z3.Implies(z3.And(ix == a+b*NF, done), el == SP(a, b))
            yield 'time', z3.Implies(z3.And(ix >= 0, ix < k), el == WRAP(DIFF(FUN(ix), PV)))
        th.elems = elems; th.invs = lambda eng, k, outer: [('k<=n', k <= NF), ('k<=v', k <= NV)]
        eng.call_fn(find1(eng.db, S+'::DifferentiateUsingDerivatives'), o, []); r = o.f['space_derivatives_'].get(); eng.assume(z3.And(i0 >= 0, i0 < NF))
        eng.prove('one derivative per function and variable', I(r.size()) == NF*NV); eng.prove('derivative (a,b) is that of function a by variable b', th.term_of(eng, r.elem(a+b*NF)) == SP(a, b)); eng.prove('marked as differentiated', toz(o.f['is_differentiated_'].get()) == True)
        if eng.branch(HAVEP): r = o.f['time_derivatives_'].get(); eng.prove('one time derivative per function', I(r.size()) == NF); eng.prove('derivative i is that of function i by the path variable', th.term_of(eng, r.elem(i0)) == WRAP(DIFF(FUN(i0), PV)))
    out.append(Group('DifferentiateUsingDerivatives', [S+'::DifferentiateUsingDerivatives'], run_d, SysTheory, setup=diff_lib))
    return out
def sdiff_groups():
    out = []
    def lib2(eng, want=()):
        diff_lib(eng); C = eng.contract_calls; th = eng.theory
        def simp(eng, f, this, e):
            F, i = th.place(eng.rv(e['args'][0]).target)
            if F is None: raise Unsupported('Simplify of something else')
            eng.prove('simplified when nothing cached is left', R(th.lists[F].get().elem(i, 0)) == 1) if F != 'function' else None
            th.write(th.lists[F], i, 0); return eng.fresh('simplifications', Int)
        C['bertini::Simplify'] = simp
    for pv in (True, False):
     for der in (True, False):
      def run_s(eng, pv=pv, der=der):
        o = system(eng); eng.assume(HAVEP == z3.BoolVal(pv)); eng.assume((o.f['deriv_method_'].get() == DER(eng)) == z3.BoolVal(der)); th = eng.theory; cu = z3.Function('variable_before', Int, Real)
        def mats(eng, el, el0, ix, k, outer):
            i, j = ix; yield 'back', z3.Implies(z3.And(j == 0, i >= 0, i < k), el == cu(i)); yield 'rest', z3.Implies(z3.And(j == 0, i >= k), el == cu(i))
            yield 'reset', z3.Implies(z3.And(j == 0, i >= 0, i < k), el == 1); yield 'kept', z3.Implies(el0 == 1, el == 1); yield 'later', z3.Implies(z3.And(j == 0, i >= k, el0 == 1), el == 1)
        th.mats = mats
        def elems(eng, el, el0, ix, k, outer):
            if el.sort() == Real: yield 'saved', z3.Implies(z3.And(ix >= 0, ix < k), el == cu(ix))
        th.elems = elems; th.invs = lambda eng, k, outer: [('k<=n', k <= NF), ('k<=v', k <= NV), ('k<=nv', k <= NF*NV)]
        eng.call_fn(find1(eng.db, S+'::SimplifyDerivatives'), o, []); eng.assume(z3.And(i0 >= 0, i0 < NF)); eng.assume(z3.And(j0 >= 0, j0 < NV)); eng.assume(z3.And(g0 >= 0, g0 < NF*NV))
        eng.prove('every variable has its value again', R(th.cur.get().elem(j0, 0)) == cu(j0))
        eng.prove('the path variable has its value again', R(th.path.get()) == z3.Real('path_before'))
        fr = lambda F, i: R(th.lists[F.name()].get().elem(i, 0)) == 1
        eng.prove('no differential keeps a value of another point', fr(JAC, i0)); eng.prove('no derivative keeps a value of another point', z3.And(fr(SDV, g0), fr(TDV, i0)))
      out.append(Group('SimplifyDerivatives %s %s' % ('derivatives' if der else 'differentials', 'with path variable' if pv else 'without path variable'), [S+'::SimplifyDerivatives'], run_s, SysTheory, setup=lib2))
    def lib3(eng, want=()):
        lib2(eng); C = eng.contract_calls; th = eng.theory
        def mark(k): return lambda eng, f, this, e: th.st.__setitem__('order', th.st.get('order', ())+(k,))
        C[S+'::DifferentiateUsingJacobianNode'] = mark('jac'); C[S+'::DifferentiateUsingDerivatives'] = mark('der'); C[S+'::SimplifyDerivatives'] = mark('simplify')
        def comp(eng, f, this, e):
            a = eng.lv(e['args'][0]); a = a.get() if isinstance(a, (Cell, FnCell, Val)) else a
            th.st['order'] = th.st.get('order', ())+('compile',) if a is th.st['sys'] else ('compile another',); return Opaque('program')
        C['bertini::SLPCompiler::Compile'] = comp; C['bertini::SLPCompiler::SLPCompiler'] = lambda eng, f, this, e: None; C['bertini::SLPCompiler::~SLPCompiler'] = lambda eng, f, this, e: None
        def assign(eng, f, this, e):
            v = eng.rv(e['args'][0]); th.st['order'] = th.st.get('order', ())+('kept' if isinstance(v, Opaque) and v.t == 'program' else 'kept another',); return this
        C['bertini::StraightLineProgram::operator='] = assign
    def run_d(eng):
        o = system(eng); th = eng.theory; th.st['sys'] = o; o.f['auto_simplify_'] = Cell(eng, z3.Bool('auto_simplify')); em, dm = o.f['eval_method_'].get(), o.f['deriv_method_'].get()
        eng.call_fn(find1(eng.db, S+'::Differentiate'), o, []); od = th.st.get('order', ())
        b = lambda x: z3.BoolVal(bool(x))
        eng.prove('differentiated by the method asked for', z3.If(dm == DER(eng), b(od[:1] == ('der',)), b(od[:1] == ('jac',))))
        eng.prove('nothing but simplification and compilation follows', b(od[1:] in ((), ('simplify',), ('compile', 'kept'), ('simplify', 'compile', 'kept'))))
        eng.prove('the program is compiled from this system exactly if asked for', z3.If(em == FT_(eng), b('compile' not in od), b(od[-2:] == ('compile', 'kept'))))
    out.append(Group('Differentiate', [S+'::Differentiate'], run_d, SysTheory, setup=lib3))
    return out
# ---- groups of variables: their order, and points without homogenizing coordinates
NT, NA, NH, NU = [z3.Int(x) for x in ('groups', 'affine_groups', 'projective_groups', 'ungrouped')]
KIND = z3.Function('kind_of_group', Int, Int); ALEN, HLEN = z3.Function('affine_length', Int, Int), z3.Function('projective_length', Int, Int)
AVAR, HVAR = z3.Function('affine_variable', Int, Int, Node), z3.Function('projective_variable', Int, Int, Node); UVAR, HOMV = z3.Function('ungrouped_variable', Int, Node), z3.Function('homogenizing_variable', Int, Node)
HOMED = z3.Bool('homogenized'); k0 = z3.Int('group0')
def ite(*a): return z3.If(a[0], toz(a[1], Int), ite(*a[2:]) if len(a) > 3 else toz(a[2], Int))
class GroupTheory(SysTheory):
    def reset(s, eng):
        super().reset(eng)
        aff, hom, ung = [enum_value(eng.db, 'VariableGroupType::'+x) for x in ('Affine', 'Homogeneous', 'Ungrouped')]; s.aff, s.hom, s.ung = aff, hom, ung
        s.A = Rec('affine_before', Int, 0, lambda k, x: x+z3.If(KIND(k) == aff, 1, 0)); s.H = Rec('projective_before', Int, 0, lambda k, x: x+z3.If(KIND(k) == hom, 1, 0)); s.U = Rec('ungrouped_before', Int, 0, lambda k, x: x+z3.If(KIND(k) == ung, 1, 0))
        s.LEN = lambda k: z3.If(KIND(k) == aff, ALEN(s.A.F(k)), z3.If(KIND(k) == hom, HLEN(s.H.F(k)), z3.IntVal(1)))
        s.OFF = lambda k: z3.If(z3.And(HOMED, KIND(k) == aff), z3.IntVal(1), z3.IntVal(0))
        s.HI = Rec('place', Int, 0, lambda k, x: x+s.LEN(k)+s.OFF(k)); s.DI = Rec('natural_place', Int, 0, lambda k, x: x+s.LEN(k))
        s.rec_at = lambda eng, outer: [] if outer else [s.A, s.H, s.U, s.HI, s.DI]
        q = z3.Int('q'); eng.fact(z3.ForAll([q], ALEN(q) >= 0, patterns=[ALEN(q)])); eng.fact(z3.ForAll([q], HLEN(q) >= 0, patterns=[HLEN(q)])); eng.fact(z3.ForAll([q], z3.Or(KIND(q) == aff, KIND(q) == hom, KIND(q) == ung), patterns=[KIND(q)]))
        eng.fact(z3.And(NT >= 0, NA >= 0, NH >= 0, NU >= 0)); r = z3.Int('r')
        for F in (AVAR, HVAR): eng.fact(z3.ForAll([q, r], F(q, r) != NULLN, patterns=[F(q, r)]))
        for F in (UVAR, HOMV): eng.fact(z3.ForAll([q], F(q) != NULLN, patterns=[F(q)]))
    def unroll(s, eng, k):
        for r in s.current(eng, eng.outer): r.unroll(eng, k)
def grouped(eng, o):
    VT = 'std::shared_ptr<bertini::node::Variable>'; VV = 'std::vector<std::shared_ptr<bertini::node::Variable>>'
    o.f['time_order_of_variable_groups_'] = Cell(eng, Seq(eng, 'bertini::VariableGroupType', NT, lambda i: KIND(I(i)), sid=KIND), 'order')
    sub = lambda F, L: (lambda g: Seq(eng, VT, L(I(g)), lambda i: Ptr(ANode(F(I(g), I(i))))))
    o.f['variable_groups_'] = Cell(eng, Seq(eng, VV, NA, sub(AVAR, ALEN), sid=AVAR), 'groups'); o.f['hom_variable_groups_'] = Cell(eng, Seq(eng, VV, NH, sub(HVAR, HLEN), sid=HVAR), 'hom_groups')
    o.f['ungrouped_variables_'] = Cell(eng, nodes(eng, UVAR, NU, VT), 'ungrouped'); o.f['homogenizing_variables_'] = Cell(eng, nodes(eng, HOMV, z3.If(HOMED, NA, z3.IntVal(0)), VT), 'homogenizing')
    eng.fact(z3.Implies(HOMED, NA > 0))
def group_groups():
    out = []; XH = z3.Function('coordinate', Int, Real); NN = z3.Int('natural_variables')
    def setup(eng, want=()):
        lib(eng); C = eng.contract_calls; C[S+'::NumNaturalVariables'] = lambda eng, f, this, e: NN; C.pop(S+'::NumTotalVariableGroups')
    def fixed(eng):
        th = eng.theory; eng.assume(z3.And(k0 >= 0, k0 < NT, i0 >= 0, i0 < th.LEN(k0)))
        for r in (th.A, th.H, th.U, th.HI, th.DI): r.base(eng); r.unroll(eng, k0)
        th.invs = lambda eng, k, outer: [('k<=len', k <= th.LEN(outer[-1]))] if outer else [('k<=n', k <= NT), ('later', z3.Implies(k > k0, z3.And(th.DI.F(k) >= th.DI.F(k0+1), th.HI.F(k) >= th.HI.F(k0+1)))), ('len', z3.And(th.HI.F(k) >= 0, th.DI.F(k) >= 0))]
    for nm, cp in KINDS:
        def run_d(eng, cp=cp):
            o = system(eng); grouped(eng, o); th = eng.theory; fixed(eng); place = th.DI.F(k0)+i0
            want = z3.If(z3.And(HOMED, KIND(k0) == th.aff), XH(th.HI.F(k0)+1+i0)/XH(th.HI.F(k0)), XH(th.HI.F(k0)+i0))
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix
                yield 'done', z3.Implies(z3.And(i == place, j == 0, z3.Or(outer[-1] > k0, z3.And(outer[-1] == k0, k > i0)) if outer else k > k0), el == want)
            th.mats = mats
            f = find1(eng.db, S+'::DehomogenizePointFIFO', lambda f: cp in str(f['targs']))
            r = eng.call_fn(f, o, [Cell(eng, Mat(NV, 1, lambda i, j: XH(I(i))), 'x')]); r = r.get() if isinstance(r, Cell) else r
            eng.prove('as many coordinates as natural variables', I(r.rows) == NN)
            eng.prove('each group is divided by its own homogenizing coordinate', R(r.elem(place, 0)) == want)
        out.append(Group('DehomogenizePointFIFO '+nm, [S+'::DehomogenizePointFIFO'], run_d, GroupTheory, setup=setup))
        def run_p(eng, cp=cp):
            o = system(eng); n = eng.fresh('length', Int); DEH = z3.Function('dehomogenized', Int, Real); eng.assume(n >= 0)
            def c(eng, f, this, e):
                x = eng.rv(e['args'][0]); q = eng.fresh('q', Int); eng.prove('the point given is dehomogenized', z3.And(I(x.rows) == NV, z3.Implies(z3.And(q >= 0, q < NV), R(x.elem(q, 0)) == XH(q)))); return Mat(NN, 1, lambda i, j: DEH(I(i)))
            eng.contract_calls[S+'::DehomogenizePointFIFO'] = c
            try: r = eng.call_fn(find1(eng.db, S+'::DehomogenizePoint', lambda f: cp in str(f['targs'])), o, [Cell(eng, Mat(n, 1, lambda i, j: XH(I(i))), 'x')]); r = r.get() if isinstance(r, Cell) else r
            except ThrowEx: eng.prove('rejected only for a wrong length', n != NV); return
            eng.assume(z3.And(i0 >= 0, i0 < NN)); eng.prove('what is returned is the dehomogenized point', z3.And(I(r.rows) == NN, R(r.elem(i0, 0)) == DEH(i0)))
        out.append(Group('DehomogenizePoint '+nm, [S+'::DehomogenizePoint'], run_p, GroupTheory, setup=setup))
    def run_o(eng):
        o = system(eng); grouped(eng, o); th = eng.theory; fixed(eng)
        eng.fact(NV == th.HI.F(NT)) if False else None
        place = th.HI.F(k0)+th.OFF(k0)+i0; want = z3.If(KIND(k0) == th.aff, AVAR(th.A.F(k0), i0), z3.If(KIND(k0) == th.hom, HVAR(th.H.F(k0), i0), UVAR(th.U.F(k0))))
        def elems(eng, el, el0, ix, k, outer):
            yield 'variable', z3.Implies(z3.And(ix == place, k > k0), el == want)
            yield 'homogenizing', z3.Implies(z3.And(ix == th.HI.F(k0), k > k0, HOMED, KIND(k0) == th.aff), el == HOMV(th.A.F(k0)))
        th.elems = elems
        try: r = eng.call_fn(find1(eng.db, S+'::VariableOrdering'), o, []); r = r.get() if isinstance(r, Cell) else r
        except ThrowEx: return
        eng.prove('as many places as variables', I(r.size()) == NV)
        eng.prove('each variable of a group has its place after the groups before it', th.term_of(eng, r.elem(place)) == want)
        eng.prove('the homogenizing variable comes first in its group', z3.Implies(z3.And(HOMED, KIND(k0) == th.aff), th.term_of(eng, r.elem(th.HI.F(k0))) == HOMV(th.A.F(k0))))
    out.append(Group('VariableOrdering', [S+'::VariableOrdering'], run_o, GroupTheory, setup=setup))
    def run_n(eng):
        o = system(eng); grouped(eng, o); th = eng.theory
        SA, SH = Rec('affine_sum', Int, 0, lambda k, x: x+ALEN(k)), Rec('projective_sum', Int, 0, lambda k, x: x+HLEN(k)); th.rec_at = lambda eng, outer: [SA, SH]; SA.base(eng); SH.base(eng)
        eng.contract_calls.pop(S+'::NumNaturalVariables', None)
        th.invs = lambda eng, k, outer: [('k<=a', k <= NA), ('k<=h', k <= NH)]
        f0 = th.extra_candidates
        def extra(eng, q, q0, k, occ):
            out = f0(eng, q, q0, k, occ); d0 = dict(q0)
            for n, v in q:
                if n in d0 and v.sort() == Int: out += [(n+'=a', v == d0[n]+SA.F(k)), (n+'=h', v == d0[n]+SH.F(k))]
            return out
        th.extra_candidates = extra
        r = eng.call_fn(find1(eng.db, S+'::NumNaturalVariables'), o, [])
        eng.prove('natural variables are those of all groups', I(r) == SA.F(NA)+SH.F(NH)+NU)
    out.append(Group('NumNaturalVariables', [S+'::NumNaturalVariables'], run_n, GroupTheory, setup=setup))
    return out
def system_groups(): return eval_groups()+top_groups()+diff_groups()+sdiff_groups()+group_groups()
