"""Contracts of the simplification passes: every pass leaves the value of the node unchanged at every point.
Contract of the passes on a child: the child keeps its value (induction on the tree).  The point at which the passes evaluate
is generic: a sub-expression whose current value is 0 (1) is 0 (1) at every point (requires)."""
from .nodes import *
from .build import BuildTheory, OPND, EXPO
from .degree import absorbing
from engine import models as MD
CH = z3.Function('CH', Node, Int, Node); CFL = z3.Function('CFL', Node, Int, BoolS); NOP = z3.Function('NOP', Node, Int)
PASSES = ('EliminateZeros', 'EliminateOnes', 'ReduceDepth')

class SimpTheory(BuildTheory):
    def reset(s, eng): s.subs = []; s.absorb = []; s.o = None; s.subof = {}; super().reset(eng)
    def loop_entry(s, eng):
        """the aggregate of the operands currently held by the object is a measure of progress"""
        if s.o is None or eng.loopk: return
        nm = 'signs_' if s.o.cls.endswith('SumOperator') else 'mult_or_div_'
        a, b = s.o.f['operands_'].get(), s.o.f[nm].get()
        if a.tail or b.tail or a.over or b.over or a.sid is None or b.sid is None or not is_z(a.base_n): return
        R = s.aggfn(eng, 'sum' if nm == 'signs_' else 'mult', a, b, s.D)
        if not any(R is x for x in s.recs): R.depth = None; s.recs.append(R); s.lengths.append(a.base_n)
        s.fl0 = lambda i: b.elem(i); s.op0 = lambda i: s.term_of(eng, a.elem(i))
    def dyncast(s, eng, a, cls):
        r = super().dyncast(eng, a, cls)
        if r.target is not None and cls in (PFX+'SumOperator', PFX+'MultOperator') and not a.term.get_id() in s.subof:
            kind = 'sum' if 'Sum' in cls else 'mult'; t = a.term
            def step(k, acc):
                v = EV(CH(t, k), s.D); f = CFL(t, k)
                if kind == 'sum': return z3.If(f, acc+v, acc-v)
                eng.fact(z3.Implies(z3.Not(f), v != 0)); return z3.If(f, acc*v, acc/v)
            R = Rec('SUB'+kind, Real, 0 if kind == 'sum' else 1, step, params=(t,)); R.base(eng); R.depth = None
            R.unroll(eng, z3.IntVal(0))
            eng.fact(NOP(t) >= 1); eng.fact(EV(t, s.D) == R.at(eng, NOP(t)))
            s.lengths.append(NOP(t)); s.recs.append(R); s.subof[t.get_id()] = t; s.subs.append((R, kind, t))
            if kind == 'mult': absorbing(eng, s, R, lambda x: x == 0, NOP(t))
        return r
    def anode_field(s, eng, a, name):
        t = a.term
        if name == 'operands_': return Val(Seq(eng, SP, NOP(t), lambda i: Ptr(nn(eng, CH(t, toz(i, Int)))), sid=CH))
        if name in ('signs_', 'mult_or_div_'): return Val(Seq(eng, 'bool', NOP(t), lambda i: CFL(t, toz(i, Int)), sid=CFL))
        return super().anode_field(eng, a, name)
    def anode_call(s, eng, a, f, args):
        if f['n'] == 'NumOperands': return NOP(a.term)
        if f['n'] in PASSES:
            r = eng.sym_value('unsigned int', 'count'); return r
        if f['n'] == 'Eval' and not [x for x in args if eng_nonnull(eng, x)]:
            v = EV(a.term, NULLN); D = EV(a.term, s.D)
            eng.fact(z3.Implies(v == 0, D == 0)); eng.fact(z3.Implies(v == 1, D == 1)); return v
        return super().anode_call(eng, a, f, args)
    def unroll(s, eng, k):
        super().unroll(eng, k)
        for R, neg, N in s.absorb:
            for j in (k, z3.simplify(k+1)):
                eng.fact(z3.Implies(z3.And(j <= N, neg(R.at(eng, j))), neg(R.at(eng, N))))
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        i = eng.loopk[0] if eng.loopk else None
        if s.o is not None:
            fl = s.o.f['signs_' if 'signs_' in s.o.f else 'mult_or_div_'].v if False else s.fl0
            for n, t in q:
                if n not in q0: continue
                for R, kind, tt in s.subs:
                    if i is None: continue
                    r = R.at(eng, k); f = toz(fl(i), BoolS)
                    if n.startswith('sum') and kind == 'sum': out.append((n+'=+-'+R.name, t == q0[n] + z3.If(f, r, -r)))
                    if n.startswith('mul') and kind == 'mult': out.append((n+'=*/'+R.name, t == z3.If(f, q0[n]*r, q0[n]/r)))
            if s.o.cls.endswith('MultOperator'):
                d = dict(q)
                for n, t in q:
                    if n[0] == 'n' and n[1:].isdigit(): out.append((n+'=0->one', z3.Implies(z3.And(k >= 1, t == 0), EV(s.op0(z3.IntVal(0)), s.D) == 1)))
        return out
    def elem_templates(s, eng, el, el0, ix, k, n):
        if el.sort() != BoolS or s.o is None: return
        v = EV(s.op0(ix), s.D)
        yield 'zero', z3.Implies(z3.And(ix >= 0, el), v == 0)
        yield 'one', z3.Implies(z3.And(ix >= 0, el), v == 1)
def eng_nonnull(eng, x):
    v = eng.rv(x); return not (isinstance(v, Ptr) and v.target is None)
def simp_group(short, fname):
    cls = PFX+short; c = short.split('::')[-1]
    def run(eng):
        th = eng.theory; th.V = None; th.D = z3.Const('point', Node); eng.fact(th.D != NULLN)
        o = make_node(eng, th, short)
        spec = toz(th.sem(eng, o), Real)
        spec_recs(eng, th, o, c)
        if c in ('SumOperator', 'MultOperator'):
            th.o = o; th.op0 = o.ghost['op']; g = o.ghost['fl']; th.fl0 = lambda i: g(toz(i, Int))
            if c == 'MultOperator':
                R = th.recs[-1]; N = o.ghost['n']; absorbing(eng, th, R, lambda x: x == 0, N)
                # a divisor does not vanish, neither at the generic point nor elsewhere; nor does a product of factors below the line
                i = z3.Int('qi'); op = o.ghost['op']
                th.divfact = True
        f = method(eng.db, cls, fname, lambda f: not f['params'])
        before = {k: cc.get() for k, cc in o.f.items()}
        try: eng.call_fn(f, o, [])
        except (ThrowEx, AbortEx): return
        eng.prove('%s.%s: the value is unchanged' % (short, fname), toz(th.sem(eng, o), Real) == spec)
        if c in ('SumOperator', 'MultOperator'):
            nm = 'signs_' if c == 'SumOperator' else 'mult_or_div_'
            a, b = o.f['operands_'].get(), o.f[nm].get()
            eng.prove('%s.%s: well-formed (at least one operand, one flag per operand)' % (short, fname), z3.And(toz(a.size(), Int) >= 1, toz(a.size(), Int) == toz(b.size(), Int)))
    return Group('simplify/%s/%s' % (short, fname), [cls+'::'+fname], run, SimpTheory, setup=setup_nodes)
def simplify_top():
    """bertini::Simplify only runs the passes on its argument; the argument handle stays the same"""
    def run(eng):
        th = eng.theory; th.V = None; th.D = z3.Const('point', Node)
        f = find1(eng.db, 'bertini::Simplify', lambda f: len(f['params']) == 1)
        n = child(eng, 'n'); c = Cell(eng, n, 'n')
        try: eng.call_fn(f, None, [c])
        except (ThrowEx, AbortEx): return
        eng.prove('Simplify: the expression keeps its value', EV(th.term_of(eng, c.get()), th.D) == EV(n.target.term, th.D))
    return Group('simplify/Simplify', ['bertini::Simplify'], run, SimpTheory, setup=setup_nodes)
def simplify_groups():
    out = []
    for c in TREE:
        if c in ('Jacobian',): continue
        for f in PASSES: out.append(simp_group(c, f))
    for c in ('SumOperator', 'MultOperator'):
        for f in ('ReduceSubSums', 'ReduceSubMults'): out.append(simp_group(c, f))
    return out + [simplify_top()]
