"""P13: linear slices."""
import z3
from engine.symex import *
from engine.verify import Group
from engine.arrtheory import *
from .nodes import find1, method
L = 'bertini::LinearSlice'
D, N = z3.Int('dimension'), z3.Int('variables')
HI = z3.Function('highest', Int, Int, Real); WD = z3.Function('working_double', Int, Int, Real); WM = z3.Function('working_multiple', Int, Int, Real)
CH = z3.Function('constant_highest', Int, Real); CD = z3.Function('constant_double', Int, Real); CM = z3.Function('constant_multiple', Int, Real)
X = z3.Function('x', Int, Real); QE = z3.Function('orthonormal', Int, Int, Real); HOM = z3.Bool('homogeneous')
DRAWN = z3.Function('drawn_slice', Int, Int, Real); DRAWNC = z3.Function('drawn_slice_constant', Int, Real)
g0, i0, j0 = z3.Int('g0'), z3.Int('i0'), z3.Int('j0'); new, old = z3.Int('new_precision'), z3.Int('old_precision')
KINDS = (('double', 'std::complex<double>', WD, CD), ('multiple', 'mpc_complex', WM, CM))
def tup(eng, o, field, mk):
    ft = {x['name']: x['t'] for x in eng.db.record(L)['fields']}; tp = Tup.__new__(Tup); tp.types = targs_of(strip_t(ft[field])); tp.cells = [Cell(eng, mk('std::complex' in t), field) for t in tp.types]
    o.f[field] = Cell(eng, tp, field)
def dims(eng): eng.fact(z3.And(D >= 0, N >= 0, D < 2**31, N < 2**31))
def variables(eng):
    f = z3.Function('variable', Int, eng.theory.Node)
    ft = {x['name']: x['t'] for x in eng.db.record(L)['fields']}
    return Seq(eng, targs_of(strip_t(ft['sliced_vars_']))[0], N, lambda i: Ptr(ANode(f(I(i)))), sid=f)
def slice_(eng, prec=None):
    o = Obj(eng, L); dims(eng); m = lambda F: Mat(D, N, lambda i, j: F(I(i), I(j))); v = lambda F: Mat(z3.If(HOM, z3.IntVal(0), D), 1, lambda i, j: F(I(i)))
    o.f['coefficients_highest_precision_'] = Cell(eng, m(HI), 'highest'); tup(eng, o, 'coefficients_working_', lambda d: m(WD if d else WM))
    o.f['constants_highest_precision_'] = Cell(eng, v(CH), 'constants'); tup(eng, o, 'constants_working_', lambda d: v(CD if d else CM))
    o.f['sliced_vars_'] = Cell(eng, variables(eng), 'vars'); o.f['num_dims_sliced_'] = Cell(eng, D, 'D'); o.f['is_homogeneous_'] = Cell(eng, HOM, 'hom')
    o.f['precision_'] = Cell(eng, prec if prec is not None else z3.Int('prec'), 'precision')
    if prec is not None:
        i, j = z3.Int('q'), z3.Int('q2')
        eng.fact(z3.ForAll([i, j], AGREES(prec, HI(i, j), WM(i, j)), patterns=[WM(i, j)])); eng.fact(z3.ForAll([i], AGREES(prec, CH(i), CM(i)), patterns=[CM(i)]))
        eng.fact(z3.ForAll([i, j], WD(i, j) == HI(i, j), patterns=[WD(i, j)])); eng.fact(z3.ForAll([i], CD(i) == CH(i), patterns=[CD(i)]))
    return o
def setup(eng):
    C = eng.contract_calls
    C['bertini::Precision'] = lambda eng, f, this, e: [eng.lv(a) for a in e['args']] and eng.sym_value('unsigned int', 'precision_of')
    C['bertini::DefaultPrecision'] = lambda eng, f, this, e: eng.theory.prec.get() if not e['args'] else eng.theory.prec.set(eng.rv(e['args'][0]))
    C['bertini::MaxPrecisionAllowed'] = lambda eng, f, this, e: 1000
    def gen(eng, f, this, e):
        c = eng.lv(e['args'][0]); eng.rv(e['args'][1]); d = eng.theory.drawn(eng, 'slice' if len(eng.loopk) == 2 else 'slice_constant'); c.set(d); return None
    eng.theory.gen = gen
    def qr(eng, f, this, e): [eng.rv(a) for a in e['args']]; return Opaque('QR')
    T = 'Eigen::HouseholderQR<Eigen::Matrix<boost::multiprecision::number<boost::multiprecision::backends::mpc_complex_backend<0>>, -1, -1>>'; C[T+'::HouseholderQR'] = qr
    def hq(eng, f, this, e):
        return Mat(eng.theory.qrows, eng.theory.qrows, lambda i, j: QE(I(i), I(j)))
    C[T+'::householderQ'] = hq
def generator(eng): o = Opaque('generator'); o.call = eng.theory.gen; return o
def parts(eng, o):
    out = {}; h = o.f['coefficients_highest_precision_'].get(); c = o.f['constants_highest_precision_'].get()
    w, v = o.f['coefficients_working_'].get(), o.f['constants_working_'].get()
    out['highest'] = (h, c)
    for t, a, b in zip(w.types, w.cells, v.cells): out['double' if 'std::complex' in t else 'multiple'] = (a.get(), b.get())
    return out
def slice_groups():
    out = []
    for nm, cp, W, C in KINDS:
        DOT = lambda i, W=W: Rec('form_'+str(W), Real, 0, lambda k, x: x + W(i, k)*X(k), params=(i,))
        for inplace in (True, False):
            def run(eng, cp=cp, W=W, C=C, DOT=DOT, inplace=inplace):
                o = slice_(eng); th = eng.theory; x = Cell(eng, Mat(N, 1, lambda i, j: X(I(i))), 'x')
                th.dots = [lambda eng, i, j: [(N, lambda jj: W(i, jj)*X(jj), DOT(i).F(i, N))]]
                f = find1(eng.db, L+'::Eval', lambda f: len(f['params']) == (2 if inplace else 1) and cp in str(f.get('targs')))
                if inplace: r = Cell(eng, Mat(eng.fresh('rows', Int), 1, lambda i, j: z3.Function('old', Int, Real)(I(i))), 'result'); eng.call_fn(f, o, [r, x]); r = r.get()
                else: r = eng.call_fn(f, o, [x]); r = r.get() if isinstance(r, Cell) else r
                eng.assume(z3.And(i0 >= 0, i0 < D)); eng.prove('one value per form', I(r.rows) == D)
                eng.prove('coefficients times the point, plus the constant unless homogeneous', R(r.elem(i0, 0)) == DOT(i0).F(i0, N) + z3.If(HOM, 0, C(i0)))
            out.append(Group('Eval %s%s' % (nm, ' in place' if inplace else ''), [L+'::Eval'], run, ArrTheory, setup=setup))
            def runj(eng, cp=cp, W=W, inplace=inplace):
                o = slice_(eng); x = Cell(eng, Mat(N, 1, lambda i, j: X(I(i))), 'x')
                f = find1(eng.db, L+'::Jacobian', lambda f: len(f['params']) == (2 if inplace else 1) and cp in str(f.get('targs')))
                if inplace: r = Cell(eng, Mat(eng.fresh('rows', Int), eng.fresh('cols', Int), lambda i, j: z3.Function('old', Int, Real)(I(i))), 'result'); eng.call_fn(f, o, [r, x]); r = r.get()
                else: r = eng.call_fn(f, o, [x]); r = r.get() if isinstance(r, Cell) else r
                eng.assume(z3.And(i0 >= 0, i0 < D, j0 >= 0, j0 < N)); eng.prove('the Jacobian is the coefficient matrix', z3.And(I(r.rows) == D, I(r.cols) == N, R(r.elem(i0, j0)) == W(i0, j0)))
            out.append(Group('Jacobian %s%s' % (nm, ' in place' if inplace else ''), [L+'::Jacobian'], runj, ArrTheory, setup=setup))
    def runp(eng):
        th = eng.theory; th.precision_axioms(eng); eng.assume(z3.And(new >= 0, old >= 0)); o = slice_(eng, old)
        wm = [c.uid for t, c in zip(o.f['coefficients_working_'].get().types, o.f['coefficients_working_'].get().cells)]
        def mats(eng, el, el0, ix, k, outer):
            i, j = ix; ok = z3.And(i >= 0, j >= 0, j < N)
            done = z3.Or(i < outer[-1], z3.And(i == outer[-1], j < k)) if outer else i < k
            yield 'coef', z3.Implies(z3.And(ok, done), AGREES(new, HI(i, j), el)); yield 'rest', z3.Implies(z3.Not(done), el == el0)
            yield 'const', z3.Implies(z3.And(z3.Not(HOM), i >= 0, j == 0, i < (outer[-1] if outer else k)), AGREES(new, CH(i), el)); yield 'restc', z3.Implies(i >= (outer[-1] if outer else k), el == el0)
            if outer: yield 'kept', el == el0
        th.mats = mats
        eng.call_fn(find1(eng.db, L+'::Precision', lambda f: len(f['params']) == 1), o, [Cell(eng, new)])
        eng.assume(z3.And(i0 >= 0, i0 < D, j0 >= 0, j0 < N)); p = parts(eng, o)
        eng.prove('the precision is set', I(o.f['precision_'].get()) == new)
        if not eng.branch(new > 16):
            a, c = p['double']; eng.prove('the working coefficients in double precision agree with the stored ones', z3.And(R(a.elem(i0, j0)) == HI(i0, j0), z3.Implies(z3.Not(HOM), R(c.elem(i0, 0)) == CH(i0)))); return
        a, c = p['multiple']
        eng.prove('the working coefficients agree with the stored ones to the new precision', AGREES(new, HI(i0, j0), R(a.elem(i0, j0))))
        eng.prove('the constants agree to the new precision', z3.Implies(z3.Not(HOM), AGREES(new, CH(i0), R(c.elem(i0, 0)))))
        for n in p: a, c = p[n]; eng.prove(n+': the shape is kept', z3.And(I(a.rows) == D, I(a.cols) == N, I(c.rows) == z3.If(HOM, z3.IntVal(0), D)))
        for n in ('highest', 'double'): a, c = p[n]; eng.prove(n+': values kept', z3.And(R(a.elem(i0, j0)) == HI(i0, j0), z3.Implies(z3.Not(HOM), R(c.elem(i0, 0)) == CH(i0))))
    out.append(Group('Precision', [L+'::Precision'], runp, ArrTheory, setup=setup))
    for orth in (False, True):
        def runm(eng, orth=orth):
            th = eng.theory; dims(eng); v = variables(eng); prec0 = I(th.prec.get())
            th.qrows = z3.If(D < N, N, D)
            VALUE = (lambda i, j: DRAWN(i, j)) if not orth else (lambda i, j: z3.If(D < N, QE(j, i), QE(i, j)))
            th.dots = [lambda eng, i, j: [(th.qrows, lambda jj: QE(i, jj)*z3.If(jj == j, z3.RealVal(1), z3.RealVal(0)), QE(i, j))]]     # lemma: summing against a Kronecker delta selects one term
            def mats(eng, el, el0, ix, k, outer):
                i, j = ix; ok = z3.And(i >= 0, j >= 0, j < N)
                done = z3.Or(i < outer[-1], z3.And(i == outer[-1], j < k)) if outer else i < k
                yield 'coef', z3.Implies(z3.And(ok, done), el == VALUE(i, j))
                yield 'const', z3.Implies(z3.And(i >= 0, j == 0, i < k), el == DRAWNC(i))
            th.mats = mats
            r = eng.call_fn(find1(eng.db, L+'::Make'), None, [Cell(eng, v, 'v'), Cell(eng, D), Cell(eng, HOM), Cell(eng, orth), Cell(eng, generator(eng))]); r = r.get() if isinstance(r, Cell) else r
            p = parts(eng, r); eng.assume(z3.And(i0 >= 0, i0 < D, j0 >= 0, j0 < N))
            for n in p:
                a, c = p[n]
                eng.prove(n+': one row per form, one column per variable', z3.And(I(a.rows) == D, I(a.cols) == N)); eng.prove(n+': the coefficients are the ones drawn', R(a.elem(i0, j0)) == VALUE(i0, j0))
                eng.prove(n+': one constant per form, none when homogeneous', I(c.rows) == z3.If(HOM, z3.IntVal(0), D)); eng.prove(n+': the constants are the ones drawn', z3.Implies(z3.Not(HOM), R(c.elem(i0, 0)) == DRAWNC(i0)))
            eng.prove('dimension, variables and kind are kept', z3.And(I(r.f['num_dims_sliced_'].get()) == D, I(r.f['sliced_vars_'].get().size()) == N, toz(r.f['is_homogeneous_'].get()) == HOM))
            eng.prove('the default precision is restored', I(th.prec.get()) == prec0)
        out.append(Group('Make'+(' orthogonal' if orth else ''), [L+'::Make', L+'::LinearSlice'], runm, ArrTheory, setup=setup))
    return out
