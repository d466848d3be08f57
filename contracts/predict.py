"""P15: Runge-Kutta predictors: tables, steps, error estimates"""
import z3, itertools
from fractions import Fraction
from engine.symex import *
from engine.verify import Group
from engine.vectheory import *
from engine import models as MD
from .nodes import find1
from . import ampc
PR = 'bertini::tracking::predict::'; CL = PR+'ExplicitRKPredictor'
#            stages, order, order of the embedded method
METHODS = {'Constant': (1, 0, None), 'Euler': (1, 1, None), 'HeunEuler': (2, 2, 1), 'RK4': (4, 4, None), 'RKF45': (6, 4, 4), 'RKCashKarp45': (6, 4, 4), 'RKDormandPrince56': (8, 5, 6), 'RKVerner67': (10, 6, 6)}
# ------------------------------------------------------------------ rooted trees (Butcher): a method has order p iff sum b_i Phi_i(t) = 1/gamma(t) for all trees with at most p nodes
def trees(n, memo={}):
    """rooted trees with n nodes as sorted tuples of subtrees"""
    if n in memo: return memo[n]
    if n == 1: memo[1] = [()]; return memo[1]
    out = set()
    def parts(rem, mx):
        if rem == 0: yield (); return
        for k in range(min(rem, mx), 0, -1):
            for t in trees(k):
                for r in parts(rem-k, k): yield (t,)+r
    for p in parts(n-1, n-1): out.add(tuple(sorted(p)))
    memo[n] = sorted(out); return memo[n]
def size(t): return 1+sum(size(x) for x in t)
def gamma(t):
    r = size(t)
    for x in t: r *= gamma(x)
    return r
def phi(t, a, s):
    """vector Phi_i(t)"""
    r = [Fraction(1)]*s
    for x in t:
        v = phi(x, a, s); w = [sum(a[i][j]*v[j] for j in range(s)) for i in range(s)]
        r = [r[i]*w[i] for i in range(s)]
    return r
def order_conditions(a, b, s, p):
    bad = []
    for n in range(1, p+1):
        for t in trees(n):
            if sum(x*y for x, y in zip(b, phi(t, a, s))) != Fraction(1, gamma(t)): bad.append(t)
    return bad
# ------------------------------------------------------------------
class PT(VecTheory): name_solves = True
def setup(eng):
    ampc.setup(eng); install_system(eng)
def code(eng, n): return enum_value(eng.db, 'SuccessCode::'+n)
def predictor(eng, m):
    """an object constructed by the real constructor for method m"""
    o = Obj(eng, CL); o.ghost['built'] = True
    f = find1(eng.db, CL+'::ExplicitRKPredictor', lambda f: len(f['params']) == 2)
    S = Obj(eng, 'bertini::System'); eng.assume(z3.Int('dim') > 0)
    eng.call_fn(f, o, [Cell(eng, Enum(enum_value(eng.db, 'Predictor::'+m))), Cell(eng, S)])
    return o, S
def fr(x):
    if isinstance(x, (int, Fraction)): return Fraction(x)
    x = z3.simplify(toz(x, Real))
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    raise Unsupported('table entry %s' % x)
def pick(o, field, cp):
    t = o.cell(field).get()
    for tt, c in zip(t.types, t.cells):
        if cp in tt or (cp == 'double' and 'mpfr' not in tt and 'mpc' not in tt): return c.get()
    raise Unsupported(field)
def table(eng, o, kind):
    s = o.cell('s_').get(); a, b, c = (pick(o, n, 'double' if kind == 'double' else 'mpfr_float') for n in ('a_', 'b_', 'c_'))
    A = [[fr(a.elem(i, j)) for j in range(s)] for i in range(s)]
    return s, A, [fr(b.elem(i, 0)) for i in range(s)], [fr(c.elem(i, 0)) for i in range(s)]
def diff_table(eng, o, kind, s):
    d = pick(o, 'b_minus_bstar_', 'double' if kind == 'double' else 'mpfr_float'); return [fr(d.elem(i, 0)) for i in range(s)]
def predict_groups():
    out = []
    for m, (stages, p, q) in METHODS.items():
        def run_table(eng, m=m, p=p, q=q):
            o, S = predictor(eng, m)
            eng.prove('%s: claimed order' % m, toz(o.cell('p_').get(), Int) == p)
            r = eng.call_fn(find1(eng.db, PR+'Order'), None, [Cell(eng, Enum(enum_value(eng.db, 'Predictor::'+m)))])
            eng.prove('%s: Order' % m, toz(r, Int) == p)
            h = eng.call_fn(find1(eng.db, PR+'HasErrorEstimate'), None, [Cell(eng, Enum(enum_value(eng.db, 'Predictor::'+m)))])
            eng.prove('%s: HasErrorEstimate' % m, toz(h, BoolS) == (q is not None))
            for kind in ('double', 'multiple'):
                s, A, b, c = table(eng, o, kind)
                eng.prove('%s %s: explicit' % (m, kind), all(A[i][j] == 0 for i in range(s) for j in range(i, s)))
                if m != 'Constant':
                    eng.prove('%s %s: nodes are the row sums' % (m, kind), all(sum(A[i]) == c[i] for i in range(s)))
                eng.prove('%s %s: order conditions up to %d' % (m, kind, p), not order_conditions(A, b, s, p), detail=str(order_conditions(A, b, s, p))[:200])
                if q is not None:
                    d = diff_table(eng, o, kind, s); bs = [x-y for x, y in zip(b, d)]
                    eng.prove('%s %s: order conditions of the embedded method up to %d' % (m, kind, q), not order_conditions(A, bs, s, q), detail=str(order_conditions(A, bs, s, q))[:200])
                    eng.prove('%s %s: the embedded method is another one' % (m, kind), any(x != 0 for x in d))
        out.append(Group('table '+m, [CL+'::PredictorMethod', CL+'::FillButcherTable', PR+'Order', PR+'HasErrorEstimate'], run_table, PT, setup=setup))
        for kind, cp in (('double', 'std::complex<double>'), ('multiple', 'mpc_complex')):
            has = lambda f, cp=cp: cp in f['key']
            def run_step(eng, m=m, kind=kind, has=has, q=q, p=p):
                th = eng.theory; o, S = predictor(eng, m); s, A, b, c = table(eng, o, kind)
                x, t, dt = eng.fresh('x', Real), eng.fresh('t', Real), eng.fresh('dt', Real); nx = Cell(eng, vec(eng.fresh('old', Real)), 'next')
                th.solves = []; th.evals = []
                C = lambda v: Cell(eng, v)
                r = toz(eng.call_fn(find1(eng.db, CL+'::FullStep', has), o, [nx, C(S), C(vec(x)), C(t), C(dt)]), Int)
                K = [k['r'] for k in th.solves]
                ok, m1, m2 = code(eng, 'Success'), code(eng, 'MatrixSolveFailureFirstPartOfPrediction'), code(eng, 'MatrixSolveFailure')
                sl = th.solves
                n = len(sl)
                # stage i: the slope is taken at x + dt*sum a_ij k_j, t + c_i dt, from -J k = dF/dt
                for i in range(n):
                    y = x + dt*sum((z3.RealVal(A[i][j])*K[j] for j in range(i) if A[i][j] != 0), z3.RealVal(0)) if any(A[i][:i]) else x
                    ti = t + z3.RealVal(c[i])*dt
                    eng.prove('stage %d: Jacobian' % i, sl[i]['M'] == J_(y, ti))
                    eng.prove('stage %d: right-hand side' % i, sl[i]['rhs'] == -T_(y, ti))
                if eng.branch(r == ok):
                    eng.prove('all stages are computed', n == s)
                    if n == s: eng.prove('the step is the Runge-Kutta formula', val(nx.get()) == x + dt*sum((z3.RealVal(b[i])*K[i] for i in range(s)), z3.RealVal(0)))
                    eng.prove('success only with regular linear systems', z3.And([REG(k['M']) for k in sl]+[z3.BoolVal(True)]))
                    if q is not None and n == s:
                        d = diff_table(eng, o, kind, s); est = Cell(eng, eng.fresh('oldest', Real))
                        eng.call_fn(find1(eng.db, CL+'::SetErrorEstimate', has), o, [est, C(dt)])
                        e_ = z3.simplify(R(est.get())); want = dt*sum((z3.RealVal(d[i])*K[i] for i in range(s)), z3.RealVal(0))
                        if e_.decl().name() == 'norm2': eng.prove('the error estimate is the norm of the difference to the embedded method', e_.arg(0) == want)
                        else: eng.prove('the error estimate is the norm of the difference to the embedded method', e_ == NORM2(want))
                        sz = Cell(eng, eng.fresh('oldsz', Real)); eng.call_fn(find1(eng.db, CL+'::SetSizeProportion', has), o, [sz, C(dt)])
                        eng.prove('the size proportion is the error estimate per step size to the order plus one', R(sz.get()) == R(est.get())/R(MD.power(eng, MD.uf('abs')(dt), p+1)))
                else:
                    eng.prove('a singular linear system is reported', z3.Or(r == m1, r == m2)); eng.prove('the first stage is reported as such', (r == m1) == (n == 0))
            out.append(Group('step %s %s' % (m, kind), [CL+'::FullStep', CL+'::EvalRHS', CL+'::SetErrorEstimate', CL+'::SetSizeProportion'], run_step, PT, setup=setup))
    return out
