"""Theory of vectors and systems for the numerical algorithms.

A vector is represented by one generic coordinate (the coordinate I0): sums, differences and scalar multiples act on it as in the
field.  Functions of whole vectors (the functions of a system, its Jacobian, norms, solutions of linear systems) are uninterpreted
functions of that representative.  An equation between linear combinations of such terms that holds for the representatives holds
for the vectors: a finite-dimensional space embeds linearly in a field extension of its scalars, and products of two vectors are
never formed (matrix products are unsupported except by scalars)."""
import z3
from fractions import Fraction
from .symex import *
from .nodetheory import NodeTheory, Rec
from . import models as MD
I0 = z3.Int('coordinate')
MatS = z3.DeclareSort('Matrix')
R = lambda x: toz(x, Real)
F_ = z3.Function('F', Real, Real, Real)              # functions of the system at (point, time)
J_ = z3.Function('J', Real, Real, MatS)              # Jacobian
T_ = z3.Function('dFdt', Real, Real, Real)           # time derivative
SOLVE = z3.Function('solve', MatS, Real, Real)       # solution of a regular linear system
APPLY = z3.Function('apply', MatS, Real, Real)
REG = z3.Function('regular', MatS, BoolS)            # judged regular by LUPartialPivotDecompositionSuccessful
NORM2 = z3.Function('norm2', Real, Real); NORMI = z3.Function('norminf', Real, Real); NORMM = z3.Function('norm_matrix', MatS, Real)
class JM(Mat):
    """a matrix known only as a whole"""
    def __init__(s, rows, cols, term): Mat.__init__(s, rows, cols, s.no); s.term = term
    def no(s, i, j): raise Unsupported('entry of an abstract matrix')
    def havoc(s, eng, nm): return JM(s.rows, s.cols, eng.fresh(nm, MatS))
def vec(t, n=None): return Mat(n if n is not None else z3.Int('dim'), 1, lambda i, j: t)
def val(m): return R(m.elem(I0, 0))
def linear(t):
    """[(scalar numeral, term)] of a representative"""
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD: return [x for c in t.children() for x in linear(c)]
    if k == z3.Z3_OP_SUB:
        c = t.children(); return linear(c[0]) + [(-a, b) for x in c[1:] for a, b in linear(x)]
    if k == z3.Z3_OP_UMINUS: return [(-a, b) for a, b in linear(t.children()[0])]
    if k == z3.Z3_OP_MUL:
        c = t.children()
        for i, x in enumerate(c):
            if z3.is_rational_value(x):
                r = c[:i]+c[i+1:]; q = Fraction(x.numerator_as_long(), x.denominator_as_long())
                return [(q*a, b) for a, b in linear(r[0] if len(r) == 1 else z3.Product(*r))]
    return [(Fraction(1), t)]
def solve(M, v):
    r = None
    for a, b in linear(z3.simplify(v)):
        x = SOLVE(M, b); x = x if a == 1 else -x if a == -1 else z3.RealVal(a)*x
        r = x if r is None else r + x
    return r
class VecTheory(NodeTheory):
    V = None
    name_solves = False
    def reset(s, eng):
        super().reset(eng); s.solves = []; s.cur = None; s.kseen = []; s.evals = []; s.prec = Cell(eng, eng.sym_value('unsigned int', 'default_precision'), 'default_precision')
    def quantities(s, eng, W):
        out = super().quantities(eng, W)
        for u in sorted(W):
            c = eng.cells.get(u)
            if c is not None and isinstance(c.v, Mat) and not isinstance(c.v, JM):
                try:
                    if is_num(c.v.cols) and c.v.cols == 1 or is_z(c.v.cols) and z3.is_int_value(c.v.cols) and c.v.cols.as_long() == 1: out.append(('v%d' % u, val(c.v)))
                except Unsupported: pass
        return out
    def unroll(s, eng, k):
        s.kseen.append(k); super().unroll(eng, k)
    def mat_fn(s, eng, n, m, f):
        if n == 'norm':
            r = NORMM(m.term) if isinstance(m, JM) else NORM2(val(m)); eng.fact(r >= 0); return r
        if n == 'squaredNorm':
            r = NORM2(val(m)); return r*r
        if n == 'lpNorm':
            t = str(f.get('targs')) + f['key']
            if '-1' in t: r = NORMI(val(m))
            elif '<2>' in t: r = NORM2(val(m))
            else: raise Unsupported('lpNorm '+t[:80])
            eng.fact(r >= 0); return r
        if n == 'maxCoeff' and hasattr(m, 'absof'): return NORMI(val(m.absof))
        raise Unsupported('matrix '+n)
    def matmul(s, eng, a, b):
        if isinstance(a, JM) and not isinstance(b, JM): return vec(APPLY(a.term, val(b)), a.rows)
        # inner dimension concrete: a sum
        n = a.cols
        if is_z(n) and z3.is_int_value(n): n = n.as_long()
        if isinstance(n, int) and n <= 40:
            def el(i, j):
                r = Fraction(0)
                for k in range(n): r = eng.add(r, eng.mul(a.elem(i, k), b.elem(k, j)))
                return r
            return Mat(a.rows, b.cols, el)
        raise Unsupported('matrix product')
    def eigen(s, eng, f, this, args, e, n):
        v = this.get() if this is not None else None
        if n in ('lu', 'partialPivLu') and isinstance(v, JM): return v
        if n == 'matrixLU' and isinstance(v, JM): return v
        if n == 'compute' and args:
            m = eng.rv(args[0])
            if isinstance(m, JM): this.set(m); return this
        if n == 'operator=' and args:
            m = eng.rv(args[0])
            if isinstance(m, JM): this.set(m); return this
        if n == 'solve' and isinstance(v, JM):
            b = eng.rv(args[0]); r = solve(v.term, val(b))
            if s.name_solves:
                c = eng.fresh('k', Real); s.solves.append(dict(M=v.term, rhs=val(b), r=c)); eng.fact(c == r); r = c
            return vec(r, v.cols)
        if n in ('abs', 'cwiseAbs') and isinstance(v, Mat):
            m = Mat(v.rows, v.cols, lambda i, j: MD.absv(eng, v.elem(i, j))); m.absof = v; return m
        return NotImplemented
def install_system(eng, S='bertini::System'):
    """contracts of the evaluation interface of a system (P08): values belong to the point set last"""
    C = eng.contract_calls
    th = lambda: eng.theory
    def setreset(eng, f, this, e):
        a = [eng.rv(x) for x in e['args']]; th().cur = (val(a[0]), R(a[1]) if len(a) > 1 else z3.RealVal(0)); return None
    C[S+'::SetAndReset'] = setreset
    def at(e, k):
        """(point, time) of an evaluation; k: number of output arguments"""
        if len(e['args']) > k:
            a = [eng.rv(x) for x in e['args'][k:]]; return val(a[0]), R(a[1]) if len(a) > 1 else z3.RealVal(0)
        if th().cur is None: raise Unsupported('evaluation at a point that was never set')
        return th().cur
    def ev(kind, inplace):
        def c(eng, f, this, e):
            x, t = at(e, 1 if inplace else 0); th().evals.append((kind, x, t))
            n = z3.Int('dim')
            r = JM(n, n, J_(x, t)) if kind == 'J' else vec(F_(x, t) if kind == 'F' else T_(x, t))
            if not inplace: return r
            eng.lv(e['args'][0]).set(r); return None
        return c
    C[S+'::Eval'] = ev('F', False); C[S+'::EvalInPlace'] = ev('F', True)
    C[S+'::Jacobian'] = ev('J', False); C[S+'::JacobianInPlace'] = ev('J', True)
    C[S+'::TimeDerivative'] = ev('T', False); C[S+'::TimeDerivativeInPlace'] = ev('T', True)
    for n in ('NumVariables', 'NumTotalFunctions', 'NumFunctions', 'NumNaturalFunctions'): C[S+'::'+n] = lambda eng, f, this, e: z3.Int('dim')
    C['bertini::LUPartialPivotDecompositionSuccessful'] = lu_ok
    C['bertini::RandomOfUnits'] = lambda eng, f, this, e: vec(eng.fresh('random', Real))
    C['bertini::DefaultPrecision'] = lambda eng, f, this, e: defprec(eng, e)
    C['bertini::Precision'] = precision
def lu_ok(eng, f, this, e):
    m = eng.rv(e['args'][0])
    if not isinstance(m, JM): raise Unsupported('LU check')
    r = eng.fresh('lu_code', Int); eng.fact(z3.And(r >= 0, r <= 2)); eng.fact((r == 0) == REG(m.term)); return r
def defprec(eng, e):
    if e['args']: eng.theory.prec.set(eng.rv(e['args'][0])); return None
    return eng.theory.prec.get()
def precision(eng, f, this, e):
    if len(e['args']) > 1:
        for a in e['args']: eng.lv(a)
        return None
    eng.lv(e['args'][0]); return eng.fresh('precision_of', Int)
def enum_value(db, name):
    """value of an enumerator that occurs in the code"""
    if not hasattr(db, 'enums'):
        db.enums = {}
        def walk(o):
            if isinstance(o, dict):
                if o.get('k') == 'enum' and 'q' in o: db.enums[o['q']] = o['v']
                for v in o.values(): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        for f in db.fn.values(): walk(f.get('body')); walk(f.get('inits'))
    for q, v in db.enums.items():
        if q.endswith(name): return v
    raise Unsupported('enumerator '+name)
