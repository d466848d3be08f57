"""Contracts of the expression builders: the value of the built expression is the operation applied to the values of the operands."""
from .nodes import *
from engine import models as MD
OPND = z3.Function('OPND', Node, Node); EXPO = z3.Function('EXPO', Node, Int)

class BuildTheory(NodeTheory):
    """adds the accessors of an abstract integer power"""
    def anode_call(s, eng, a, f, args):
        if a.cls == PFX+'IntegerPowerOperator' and f['n'] in ('Operand', 'exponent'):
            return Ptr(nn(eng, OPND(a.term))) if f['n'] == 'Operand' else EXPO(a.term)
        return super().anode_call(eng, a, f, args)
def ipw_facts(eng, th, ls):
    """meaning of an abstract integer power; PW(b,m) PW(b,n) = PW(b,m+n) for m,n >= 0 (lemma of the spec function)"""
    for t in ls: eng.fact(z3.Implies(CLS(t) == CODE[PFX+'IntegerPowerOperator'], EV(t, th.D) == MD.PW(EV(OPND(t), th.D), EXPO(t))))
    for a in ls:
        for b in ls:
            if a is not b:
                x = EV(OPND(a), th.D)
                eng.fact(z3.Implies(z3.And(OPND(a) == OPND(b), EXPO(a) >= 0, EXPO(b) >= 0), MD.PW(x, EXPO(a))*MD.PW(x, EXPO(b)) == MD.PW(x, EXPO(a)+EXPO(b))))
                eng.fact(z3.Implies(OPND(a) == OPND(b), EV(OPND(a), th.D) == EV(OPND(b), th.D)))
SPECS = {
 'operator+': lambda eng, a: a[0]+a[1] if len(a) == 2 else a[0],
 'operator-': lambda eng, a: a[0]-a[1] if len(a) == 2 else -a[0],
 'operator*': lambda eng, a: a[0]*a[1], 'operator/': lambda eng, a: a[0]/a[1],
}
for nm in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan'): SPECS[nm] = (lambda nm: lambda eng, a: MD.uf(nm)(a[0]))(nm)
def build_group(name, arity_in_place=False):
    base = name[:-1] if arity_in_place else name
    def run(eng):
        th = eng.theory; th.V = None; th.D = z3.Const('dvar', Node)
        fs = [f for f in eng.db.find(PFX+name, lambda f: f.get('body') is not None)
              if any('shared_ptr' in p['t'] for p in f['params']) and not any('ostream' in p['t'] for p in f['params'])]
        if not fs: raise Unsupported('no function '+name)
        f = fs[eng.choose(len(fs), 'overload')]
        cells = []; vals = []; terms = []; before = []
        for i, p in enumerate(f['params']):
            t = strip_t(p['t'])
            if 'shared_ptr' in t:
                if 'MultOperator' in t or 'SumOperator' in t:
                    o = make_node(eng, th, 'MultOperator' if 'Mult' in t else 'SumOperator', 'a%d' % i)
                    c = Cell(eng, Ptr(o), p['name']); vals.append(toz(th.sem(eng, o), Real))
                else:
                    ptr = child(eng, 'a%d' % i); c = Cell(eng, ptr, p['name']); terms.append(ptr.target.term); vals.append(EV(ptr.target.term, th.D))
            else:
                v = eng.sym_value(t, 'a%d' % i); c = Cell(eng, v, p['name']); vals.append(v)
            cells.append(c); before.append(c.get())
        ipw_facts(eng, th, terms)
        lab = '%s(%s)' % (name, ', '.join(short_t(p['t']) for p in f['params']))
        if base == 'pow':
            b, x = vals
            if is_z(x) and x.sort() == Int: spec = toz(MD.power(eng, b, x), Real)
            else: spec = MD.PWR(toz(b, Real), toz(x, Real))
        else: spec = SPECS[base](eng, [toz(v, Real) for v in vals])
        try: r = eng.call_fn(f, None, cells)
        except (ThrowEx, AbortEx): return
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        if not isinstance(r, Ptr) or r.target is None: eng.prove(lab+': returns an expression', False); return
        eng.prove(lab+': the value of the result is the operation applied to the values of the operands', toz(th.ev(eng, r), Real) == spec)
        for i, (p, c) in enumerate(zip(f['params'], cells)):
            inpl = arity_in_place and i == 0
            v = c.get()
            if inpl: eng.prove(lab+': the left handle holds the result', toz(th.ev(eng, v), Real) == spec)
            elif isinstance(v, Ptr) and p['t'].rstrip().endswith('&'): eng.prove(lab+': the operand handle %d is unchanged' % i, eng.eq(v, before[i]))
    return Group('build/'+name, [PFX+name], run, BuildTheory, setup=setup_nodes)
def short_t(t):
    t = strip_t(t)
    for k, v in (('MultOperator', 'product'), ('SumOperator', 'sum'), ('shared_ptr', 'expression'), ('gmp_int', 'integer'), ('rational', 'rational'), ('mpc_complex', 'complex'), ('mpfr_float', 'real')):
        if k in t: return v
    return t
def build_groups():
    return ([build_group(n) for n in ('operator+', 'operator-', 'operator*', 'operator/', 'pow', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan')]
            + [build_group(n, True) for n in ('operator+=', 'operator-=', 'operator*=', 'operator/=')])
