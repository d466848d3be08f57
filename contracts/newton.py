"""P14: Newton correction"""
import z3
from engine.symex import *
from engine.verify import Group
from engine.nodetheory import Rec
from engine.vectheory import *
from .nodes import find1
from . import ampc
NC = 'bertini::tracking::correct::NewtonCorrector'
def code(eng, n): return enum_value(eng.db, 'SuccessCode::'+n)
def setup(eng):
    ampc.setup(eng); install_system(eng)
class NT(VecTheory):
    J = z3.Int('any_iteration')
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        if getattr(s, 'done', None): out.append(('none before', z3.Implies(z3.And(s.J >= 0, s.J < k), z3.Not(s.done(s.J)))))
        return out
def step(x, t): return solve(J_(x, t), -F_(x, t))
def corrector(eng):
    o = Obj(eng, NC); return o
def newton_groups():
    out = []
    for nm, cp in (('double', 'std::complex<double>'), ('multiple', 'mpc_complex')):
        for kind in ('plain', 'amp', 'ampout'):
            def pred(f, cp=cp, kind=kind):
                if cp not in str(f.get('targs')): return False
                pt = [p['t'] for p in f['params']]; amp = any('AdaptiveMultiplePrecisionConfig' in t for t in pt)
                return amp == (kind != 'plain') and (len(pt) > 8) == (kind == 'ampout')
            def run(eng, pred=pred, kind=kind, nm=nm):
                th = eng.theory; th.done = None
                f = find1(eng.db, NC+'::Correct', pred)
                o = corrector(eng); x0, t, tol = eng.fresh('x0', Real), eng.fresh('t', Real), eng.fresh('tol', Real)
                mn, mx = eng.sym_value('unsigned int', 'min_its'), eng.sym_value('unsigned int', 'max_its')
                eng.assume(z3.And(mn <= mx, mx < 10**6)); eng.assume(z3.Int('dim') > 0)
                X = Rec('X', Real, x0, lambda k, x: x + step(x, t), None); X.base(eng); th.recs = [X]
                Y = Rec('S', Real, step(x0, t), lambda k, x: step(X.at(eng, z3.simplify(k+1)), t), None); Y.base(eng); th.recs.append(Y)
                last = lambda j: NORMI(step(X.at(eng, j), t))
                th.done = lambda j: z3.And(last(j) < tol, j+1 >= mn)
                nx = Cell(eng, vec(eng.fresh('old_next', Real)), 'next_space')
                S = Obj(eng, 'bertini::System'); cfg = Obj(eng, ampc.CFG)
                outs = [Cell(eng, eng.fresh(n, Real), n) for n in ('norm_delta_z', 'norm_J', 'norm_J_inverse', 'cond')] if kind == 'ampout' else []
                c = lambda v: Cell(eng, v)
                args = [nx]+outs+[c(S), c(vec(x0)), c(t), c(tol), c(mn), c(mx)]+([c(cfg)] if kind != 'plain' else [])
                r = toz(eng.call_fn(f, o, args), Int); nxv = val(nx.get())
                ks = th.kseen[-1:]; k = ks[0] if ks else None
                ok = code(eng, 'Success'); fc = code(eng, 'FailedToConverge'); ms = code(eng, 'MatrixSolveFailure')
                if k is None or getattr(th, 'exited', False):
                    kk = z3.Int('no_iteration')
                    eng.prove('no success without a step that met the tolerance', r != ok)
                    eng.prove('failure to converge is reported after the last iteration', r == fc)
                    eng.prove('no earlier iteration met the tolerance', z3.Implies(z3.And(th.J >= 0, th.J < mx), z3.Not(th.done(th.J))))
                else:
                    eng.prove('success only after a step below the tolerance', z3.Implies(r == ok, last(k) < tol))
                    eng.prove('success only after the minimum number of iterations', z3.Implies(r == ok, k+1 >= mn))
                    eng.prove('success only within the maximum number of iterations', z3.Implies(r == ok, k+1 <= mx))
                    eng.prove('the result is the Newton iterate', z3.Implies(r == ok, nxv == X.at(eng, z3.simplify(k+1))))
                    eng.prove('the result has the length of the point', z3.Implies(r == ok, toz(nx.get().rows, Int) == z3.Int('dim')))
                    eng.prove('every linear system was judged regular', z3.Implies(r == ok, REG(J_(X.at(eng, k), t))))
                    eng.prove('failure of the linear solver is reported as such', (r == ms) == z3.Not(REG(J_(X.at(eng, k), t))))
                    eng.prove('an iteration that met the tolerance ends in success', z3.Implies(z3.And(REG(J_(X.at(eng, k), t)), th.done(k)), r == ok))
                    hp = code(eng, 'HigherPrecisionNecessary')
                    eng.prove('other results ask for higher precision', z3.Or(r == ok, r == ms) if kind == 'plain' else z3.Or(r == ok, r == ms, r == hp))
                    if kind == 'ampout':
                        g = lambda n: cfg.cell(n).get(); d = z3.ToReal(z3.Int('digits<%s>' % nm)); o_ = [R(x.get()) for x in outs]
                        B = d > ampc.rhsB(o_[1], o_[2], mx-k, tol, o_[0], g); C = d > ampc.rhsC(o_[2], NORM2(nxv), tol, g)
                        eng.prove('higher precision is asked for only if criterion B or C fails', z3.Implies(r == hp, z3.Not(z3.And(B, C))))
                        eng.prove('the reported step length is that of the step', z3.Implies(r == ok, R(outs[0].get()) == last(k)))
                        eng.prove('the reported norm is that of the Jacobian', z3.Implies(r == ok, R(outs[1].get()) == NORMM(J_(X.at(eng, k), t))))
                        eng.prove('the condition number estimate is the product of the norms', z3.Implies(r == ok, R(outs[3].get()) == R(outs[1].get())*R(outs[2].get())))
            out.append(Group('Correct %s %s' % (kind, nm), [NC+'::Correct', NC+'::EvalIterationStep'], run, NT, setup=setup))
    return out
