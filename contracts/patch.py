"""P12: patches."""
import z3
from engine.symex import *
from engine.verify import Group
from engine.arrtheory import *
from .nodes import find1, method
P = 'bertini::Patch'
SZ = z3.Function('size', Int, Int); COEF = z3.Function('coefficient', Int, Int, Real); X = z3.Function('x', Int, Real)
G = z3.Int('groups')
def setup(eng):
    C = eng.contract_calls
    C['bertini::Precision'] = lambda eng, f, this, e: [eng.lv(a) for a in e['args']] and (eng.sym_value('unsigned int', 'precision_of') if len(e['args']) == 1 else None)
    C['bertini::DefaultPrecision'] = lambda eng, f, this, e: eng.theory.prec.get() if not e['args'] else eng.theory.prec.set(eng.rv(e['args'][0]))
OFF = Rec('offset', Int, 0, lambda k, x: x + SZ(k))
VAL = lambda g: Rec('value', Real, -1, lambda k, x: x + X(OFF.F(g)+k)*COEF(g, k), params=(g,))
DOT = lambda g: Rec('product', Real, 0, lambda k, x: x + X(OFF.F(g)+k)*COEF(g, k), params=(g,))
def numvars(eng, f, this, e): return OFF.F(G)
def seqs(eng, et, g=True):
    return Seq(eng, et, G, lambda g: Mat(SZ(I(g)), 1, lambda i, j: COEF(I(g), I(i))), sid=0)
def patch(eng, sizes=True):
    o = Obj(eng, P); eng.fact(G >= 0)
    g = z3.Int('q'); eng.fact(z3.ForAll([g], z3.And(SZ(g) >= 0, SZ(g) < 2**31), patterns=[SZ(g)])); eng.fact(z3.ForAll([g], OFF.F(g) >= 0, patterns=[OFF.F(g)]))
    r = eng.db.record(P); ft = {x['name']: x['t'] for x in r['fields']}
    o.f['variable_group_sizes_'] = Cell(eng, Seq(eng, 'unsigned int', G, lambda g: SZ(I(g)), sid=0), 'sizes')
    et = targs_of(strip_t(ft['coefficients_highest_precision_']))[0]
    o.f['coefficients_highest_precision_'] = Cell(eng, seqs(eng, et), 'highest')
    tp = eng.sym_value('std::tuple<int>', 'w') if False else Tup.__new__(Tup); tp.types = targs_of(strip_t(ft['coefficients_working_']))
    tp.cells = [Cell(eng, seqs(eng, targs_of(t)[0]), 'working%d' % i) for i, t in enumerate(tp.types)]
    o.f['coefficients_working_'] = Cell(eng, tp, 'working'); o.cell('precision_')
    eng.theory.own = [OFF]; OFF.base(eng); eng.theory.invs = bounds
    return o
def bounds(eng, k, outer): return [('k<=G', k <= G), ('k<=n', k <= OFF.F(G))] + ([('k<=size', k <= SZ(outer[-1]))] if outer else [])
def point(eng, t): return Cell(eng, Mat(OFF.F(G), 1, lambda i, j: X(I(i))), 'x')
HI = z3.Function('highest', Int, Int, Real); WD = z3.Function('working_double', Int, Int, Real); WM = z3.Function('working_multiple', Int, Int, Real)
def stored(eng, prec):
    """a patch whose working coefficients agree with the coefficients of highest precision"""
    o = patch(eng); r = eng.db.record(P); ft = {x['name']: x['t'] for x in r['fields']}
    mk = lambda F, et: Seq(eng, et, G, lambda g: Mat(SZ(I(g)), 1, lambda i, j: F(I(g), I(i))), sid=F)
    o.f['coefficients_highest_precision_'].set(mk(HI, targs_of(strip_t(ft['coefficients_highest_precision_']))[0]))
    tp = o.f['coefficients_working_'].get()
    for t, c in zip(tp.types, tp.cells): c.set(mk(WD if 'std::complex' in t else WM, targs_of(t)[0]))
    o.f['precision_'].set(prec)
    g, i = z3.Int('q'), z3.Int('q2')
    eng.fact(z3.ForAll([g, i], AGREES(prec, HI(g, i), WM(g, i)), patterns=[WM(g, i)]))
    eng.fact(z3.ForAll([g, i], WD(g, i) == HI(g, i), patterns=[WD(g, i)]))
    return o
def entries(eng, o, g, i):
    w = o.f['coefficients_working_'].get(); hs = o.f['coefficients_highest_precision_'].get(); out = {}
    for n, q in [('highest', hs)]+[('double' if 'std::complex' in t else 'multiple', c.get()) for t, c in zip(w.types, w.cells)]:
        m = eng.peekm(q, g, i, z3.IntVal(0)); out[n] = (I(q.size()), m[0], m[1])
    return out
def precision_groups():
    out = []; g0, i0 = z3.Int('g0'), z3.Int('i0'); new, old = z3.Int('new_precision'), z3.Int('old_precision')
    def lib(eng):
        C = eng.contract_calls
        C['bertini::Precision'] = lambda eng, f, this, e: [eng.lv(a) for a in e['args']] and eng.sym_value('unsigned int', 'precision_of')
        C['bertini::DefaultPrecision'] = lambda eng, f, this, e: eng.theory.prec.get() if not e['args'] else eng.theory.prec.set(eng.rv(e['args'][0]))
        C['bertini::MaxPrecisionAllowed'] = lambda eng, f, this, e: 1000
        C[P+'::NumVariables'] = numvars
        def rand(eng, f, this, e):
            c = eng.lv(e['args'][0]); eng.rv(e['args'][1]); d = eng.theory.drawn(eng, 'patch'); c.set(d); return None
        for n in ('RandomComplexAssign', 'RandomRealAssign'): C['bertini::multiprecision::'+n] = rand
    DRAWN = z3.Function('drawn_patch', Int, Int, Real)
    def rows(eng, r, r0, g, k, outer):
        if not outer: yield 'len', z3.Implies(z3.And(g >= 0, g < k), r == SZ(g))
        else: yield 'len', z3.Implies(z3.And(g >= 0, g <= outer[-1]), r == SZ(g))
    def run_prec(eng):
        eng.theory.precision_axioms(eng); eng.assume(z3.And(new >= 0, old >= 0)); o = stored(eng, old); th = eng.theory
        def smats(eng, el, el0, ix, k, outer):
            g, i, j = ix; here = z3.And(g == outer[-1], i < k) if outer else z3.BoolVal(False); done = z3.Or(g < (outer[-1] if outer else k), here)
            yield 'done', z3.Implies(z3.And(g >= 0, i >= 0, i < SZ(g), j == 0, done), AGREES(new, HI(g, i), el))
            yield 'rest', z3.Implies(z3.Not(done), el == el0)
        th.smats = smats
        th.rows = lambda eng, r, r0, g, k, outer: [('len', r == r0)]
        eng.call_fn(find1(eng.db, P+'::Precision', lambda f: len(f['params']) == 1), o, [Cell(eng, new)])
        eng.assume(z3.And(g0 >= 0, g0 < G, i0 >= 0, i0 < SZ(g0))); x = entries(eng, o, g0, i0)
        eng.prove('the precision is set', I(o.f['precision_'].get()) == new)
        eng.prove('the working coefficients agree with the stored ones to the new precision', AGREES(new, HI(g0, i0), x['multiple'][2]))
        eng.prove('the stored coefficients and those in double precision are kept', z3.And(x['highest'][2] == HI(g0, i0), x['double'][2] == HI(g0, i0)))
        for n, (gs, r, v) in x.items(): eng.prove(n+': the shape is kept', z3.And(gs == G, r == SZ(g0)))
    out.append(Group('Precision', [P+'::Precision'], run_prec, ArrTheory, setup=lib))
    def same(eng, o, VALUE, prec):
        eng.assume(z3.And(g0 >= 0, g0 < G, i0 >= 0, i0 < SZ(g0))); x = entries(eng, o, g0, i0)
        for n, (gs, r, v) in x.items(): eng.prove(n+': one vector per group, one coefficient per variable', z3.And(gs == G, r == SZ(g0)))
        eng.prove('the stored coefficient', x['highest'][2] == VALUE(g0, i0)); eng.prove('the coefficient in double precision', x['double'][2] == VALUE(g0, i0))
        eng.prove('the working coefficient to the working precision', AGREES(prec, VALUE(g0, i0), x['multiple'][2]))
        v = o.f['variable_group_sizes_'].get(); eng.prove('the sizes of the groups', z3.And(I(v.size()) == G, I(v.elem(g0)) == SZ(g0)))
        eng.prove('the precision', I(o.f['precision_'].get()) == prec)
    def fill(VALUE, prec, eng):
        def smats(eng, el, el0, ix, k, outer):
            g, i, j = ix; ok = z3.And(g >= 0, i >= 0, i < SZ(g), j == 0)
            done = z3.Or(g < outer[-1], z3.And(g == outer[-1], i < k)) if outer else g < k
            yield 'value', z3.Implies(z3.And(ok, done), el == VALUE(g, i))
            yield 'rounded', z3.Implies(z3.And(ok, done), AGREES(prec, VALUE(g, i), el))
            if outer: yield 'before', z3.Implies(z3.And(ok, g < outer[-1]), el == VALUE(g, i)); yield 'before rounded', z3.Implies(z3.And(ok, g < outer[-1]), AGREES(prec, VALUE(g, i), el)); yield 'rest', z3.Implies(g != outer[-1], el == el0); yield 'kept', el == el0
        eng.theory.smats = smats
        eng.theory.rows = lambda eng, r, r0, g, k, outer: [('len', z3.Implies(z3.And(g >= 0, g < (outer[-1] if outer else k)), r == SZ(g)))] + ([('this', z3.Implies(g == outer[-1], r == SZ(g))), ('kept', r == r0)] if outer else [])
    def run_ctor(eng):
        th = eng.theory; th.precision_axioms(eng); patch(eng); o = Obj(eng, P); o.ghost['built'] = True
        sizes = Cell(eng, Seq(eng, 'unsigned int', G, lambda g: SZ(I(g)), sid=0), 'sizes'); prec = I(th.prec.get())
        fill(DRAWN, prec, eng)
        eng.call_fn(find1(eng.db, P+'::Patch', lambda f: len(f['params']) == 1 and 'vector' in f['params'][0]['t']), o, [sizes])
        same(eng, o, DRAWN, prec)
    out.append(Group('Patch sizes', [P+'::Patch'], run_ctor, ArrTheory, setup=lib))
    def run_copy(eng, assign=False):
        th = eng.theory; th.precision_axioms(eng); a = stored(eng, old); prec = I(th.prec.get()); o = Obj(eng, P); o.ghost['built'] = True; fill(HI, prec, eng)
        eng.call_fn(find1(eng.db, P+'::Patch', lambda f: len(f['params']) == 1 and 'Patch' in f['params'][0]['t']), o, [Cell(eng, a)])
        same(eng, o, HI, prec)
    out.append(Group('Patch copy', [P+'::Patch'], run_copy, ArrTheory, setup=lib))
    def run_real(eng):
        th = eng.theory; th.precision_axioms(eng); patch(eng); prec = I(th.prec.get()); fill(DRAWN, prec, eng)
        o = eng.call_fn(find1(eng.db, P+'::RandomReal'), None, [Cell(eng, Seq(eng, 'unsigned int', G, lambda g: SZ(I(g)), sid=0), 'sizes')]); o = o.get() if isinstance(o, Cell) else o
        same(eng, o, DRAWN, prec)
    out.append(Group('RandomReal', [P+'::RandomReal', P+'::Patch'], run_real, ArrTheory, setup=lib))
    return out
KINDS = (('double', 'std::complex<double>'), ('multiple', 'mpc_complex'))
def patch_groups():
    out = []
    def run_nv(eng):
        o = patch(eng); eng.prove('the number of variables is the sum of the sizes of the groups', I(eng.call_fn(find1(eng.db, P+'::NumVariables'), o, [])) == OFF.F(G))
    out.append(Group('NumVariables', [P+'::NumVariables'], run_nv, ArrTheory, setup=setup))
    def su(eng): setup(eng); eng.contract_calls[P+'::NumVariables'] = numvars
    g0, i0, j0 = z3.Int('row'), z3.Int('i0'), z3.Int('j0')
    for nm, cp in KINDS:
        has = lambda n: (lambda f, cp=cp: len(f['params']) == n and cp in str(f.get('targs')))
        def run_eval(eng, has=has, inplace=True):
            o = patch(eng); th = eng.theory; rows = eng.fresh('rows', Int); off = rows - G
            if not inplace: off = z3.IntVal(0)
            OLD = z3.Function('old', Int, Real)
            th.rec_at = lambda eng, outer: [VAL(outer[-1])] if outer else []
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix
                if not outer:
                    yield 'done', z3.Implies(z3.And(j == 0, i >= off, i < off+k), el == VAL(i-off).F(i-off, SZ(i-off)))
                    yield 'rest', z3.Implies(z3.Or(i < off, i >= off+k), el == el0)
                else:
                    yield 'sum', z3.Implies(z3.And(j == 0, i == off+outer[-1]), el == VAL(outer[-1]).at(eng, k)); yield 'other', z3.Implies(i != off+outer[-1], el == el0)
            th.mats = mats
            x = point(eng, nm)
            if inplace:
                eng.assume(rows >= 0); v = Cell(eng, Mat(rows, 1, lambda i, j: OLD(I(i))), 'values')
                try: eng.call_fn(find1(eng.db, P+'::EvalInPlace', has(2)), o, [v, x])
                except ThrowEx: eng.prove('rejected only when the container is too short', rows < G); return
                r = v.get()
            else:
                r = eng.call_fn(find1(eng.db, P+'::Eval', has(1)), o, [x]); r = r.get() if isinstance(r, Cell) else r
                eng.prove('one value per group', I(r.rows) == G)
            eng.assume(z3.And(g0 >= 0, g0 < G))
            eng.prove('the last values are coefficients times the group, minus one', R(r.elem(off+g0, 0)) == VAL(g0).F(g0, SZ(g0)))
            if inplace:
                eng.assume(z3.And(i0 >= 0, i0 < off)); eng.prove('the other values are kept', R(r.elem(i0, 0)) == OLD(i0)); eng.prove('the length is kept', I(r.rows) == rows)
        out.append(Group('EvalInPlace '+nm, [P+'::EvalInPlace'], run_eval, ArrTheory, setup=su))
        out.append(Group('Eval '+nm, [P+'::Eval', P+'::EvalInPlace'], lambda eng, f=run_eval: f(eng, inplace=False), ArrTheory, setup=su))
        def run_jac(eng, has=has, inplace=True):
            o = patch(eng); th = eng.theory; rows = eng.fresh('rows', Int); off = rows - G if inplace else z3.IntVal(0)
            OLD = z3.Function('old', Int, Int, Real); inb = lambda g, c: z3.And(c >= OFF.F(g), c < OFF.F(g)+SZ(g)); JS = lambda g, c: z3.If(inb(g, c), COEF(g, c-OFF.F(g)), z3.RealVal(0))
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix; ok = z3.And(j >= 0, j < OFF.F(G))
                if not outer:
                    yield 'done', z3.Implies(z3.And(ok, i >= off, i < off+k), el == JS(i-off, j)); yield 'rest', z3.Implies(z3.Or(i < off, i >= off+k), el == el0)
                else:
                    g = outer[-1]
                    yield 'other', z3.Implies(i != off+g, el == el0)
                    yield 'zero', z3.Implies(z3.And(i == off+g, j >= 0, j < k), el == 0)
                    yield 'coef', z3.Implies(i == off+g, el == z3.If(z3.And(j >= OFF.F(g), j < OFF.F(g)+k), COEF(g, j-OFF.F(g)), el0))
            th.mats = mats; x = point(eng, nm)
            if inplace:
                eng.assume(rows >= G); J = Cell(eng, Mat(rows, OFF.F(G), lambda i, j: OLD(I(i), I(j))), 'jacobian')
                eng.call_fn(find1(eng.db, P+'::JacobianInPlace', has(2)), o, [J, x]); r = J.get()
            else:
                r = eng.call_fn(find1(eng.db, P+'::Jacobian', has(1)), o, [x]); r = r.get() if isinstance(r, Cell) else r
                eng.prove('one row per group and one column per variable', z3.And(I(r.rows) == G, I(r.cols) == OFF.F(G)))
            eng.assume(z3.And(g0 >= 0, g0 < G, j0 >= 0, j0 < OFF.F(G)))
            eng.prove('the last rows hold the coefficients in the columns of the group and zeros elsewhere', R(r.elem(off+g0, j0)) == JS(g0, j0))
            if inplace:
                eng.assume(z3.And(i0 >= 0, i0 < off)); eng.prove('the other rows are kept', R(r.elem(i0, j0)) == OLD(i0, j0)); eng.prove('the shape is kept', z3.And(I(r.rows) == rows, I(r.cols) == OFF.F(G)))
        out.append(Group('JacobianInPlace '+nm, [P+'::JacobianInPlace'], run_jac, ArrTheory, setup=su))
        out.append(Group('Jacobian '+nm, [P+'::Jacobian', P+'::JacobianInPlace'], lambda eng, f=run_jac: f(eng, inplace=False), ArrTheory, setup=su))
        def run_resc(eng, has=has, inplace=True):
            o = patch(eng); th = eng.theory; dot = lambda g: DOT(g).F(g, SZ(g))
            th.dots = [lambda eng, i, j: [(SZ(g), lambda jj, g=g: X(OFF.F(g)+jj)*COEF(g, jj), dot(g)) for g in list(eng.loopk)+th.groups+[z3.IntVal(0)]]]
            th.groups = []
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix
                if not outer:
                    th.groups = [k, z3.simplify(k-1)]
                    yield 'rest', z3.Implies(i >= OFF.F(k), el == el0)
                    yield 'done', z3.Implies(z3.And(g0 < k, i >= OFF.F(g0), i < OFF.F(g0)+SZ(g0)), el == X(i)/dot(g0))
                    yield 'before', z3.Implies(z3.And(g0 >= k, i < OFF.F(g0)+SZ(g0), i >= OFF.F(g0)), el == el0)
            th.mats = mats
            th.invs = lambda eng, k, outer: bounds(eng, k, outer) + [('later', z3.Implies(k > g0, OFF.F(k) >= OFF.F(g0)+SZ(g0))), ('earlier', z3.Implies(k <= g0, OFF.F(k) <= OFF.F(g0)))]
            eng.assume(z3.And(g0 >= 0, g0 < G)); x = point(eng, nm)
            if inplace: eng.call_fn(find1(eng.db, P+'::RescalePointToFitInPlace', has(1)), o, [x]); r = x.get()
            else:
                r = eng.call_fn(find1(eng.db, P+'::RescalePoint', has(1)), o, [x]); r = r.get() if isinstance(r, Cell) else r
                eng.prove('the given point is kept', R(x.get().elem(i0, 0)) == X(i0))
            eng.assume(z3.And(i0 >= OFF.F(g0), i0 < OFF.F(g0)+SZ(g0)))
            eng.prove('each group is divided by coefficients times the group', R(r.elem(i0, 0)) == X(i0)/dot(g0))
            eng.prove('the length is kept', I(r.rows) == OFF.F(G))
        out.append(Group('RescalePointToFitInPlace '+nm, [P+'::RescalePointToFitInPlace'], run_resc, ArrTheory, setup=su))
        out.append(Group('RescalePoint '+nm, [P+'::RescalePoint', P+'::RescalePointToFitInPlace'], lambda eng, f=run_resc: f(eng, inplace=False), ArrTheory, setup=su))
    return out
