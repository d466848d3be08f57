"""Contracts for expression-tree nodes (evaluation, caching, differentiation, degree)."""
import z3
from fractions import Fraction
from engine.symex import *
from engine.nodetheory import *
from engine.verify import Group
from engine import models as MD

SP = 'std::shared_ptr<bertini::node::Node>'
DBL = 'std::complex<double>'
MP = 'boost::multiprecision::number<boost::multiprecision::backends::mpc_complex_backend<0>, boost::multiprecision::et_on>'
NUMT = [('double', DBL), ('multiprecision', MP)]
TREE = ['SumOperator', 'MultOperator', 'NegateOperator', 'PowerOperator', 'IntegerPowerOperator', 'SqrtOperator', 'ExpOperator', 'LogOperator', 'SinOperator',
        'ArcSinOperator', 'CosOperator', 'ArcCosOperator', 'TanOperator', 'ArcTanOperator', 'Function', 'Integer', 'Float', 'Rational', 'special_number::Pi', 'special_number::E',
        'Differential', 'Jacobian']

def fresh_cache(eng, o, name):
    """the evaluation cache of an arbitrary node: two (value, valid) pairs"""
    types = ['std::pair<%s, bool>' % DBL, 'std::pair<%s, bool>' % MP]
    tp = Tup.__new__(Tup); tp.types = types; tp.cells = []
    for i, t in enumerate(types):
        pr = Obj(eng, t); pr.f['first'] = Cell(eng, eng.fresh(name+'_cv%d' % i, Real), 'cache.first'); pr.f['second'] = Cell(eng, eng.fresh(name+'_ok%d' % i, BoolS), 'cache.second')
        tp.cells.append(Cell(eng, pr, 'cache'))
    o.f['current_value_'] = Cell(eng, tp, 'current_value_')
    return tp

def child(eng, name, cls=None):
    n = eng.fresh(name, Node); eng.fact(n != NULLN)
    a = ANode(n, cls)
    if cls in CODE: eng.fact(CLS(n) == CODE[cls])
    return Ptr(a)

def make_node(eng, th, short, name='n'):
    """an arbitrary well-formed object of the class"""
    cls = PFX+short
    if not eng.db.record(cls): raise Unsupported('class %s not found' % cls)
    o = Obj(eng, cls); c = short.split('::')[-1]
    fresh_cache(eng, o, name)
    if c in ('SumOperator', 'MultOperator'):
        fl = 'signs_' if c == 'SumOperator' else 'mult_or_div_'
        f = eng.freshfn(name+'_op', Int, Node); g = eng.freshfn(name+'_fl', Int, BoolS); n = eng.fresh(name+'_n', Int)
        eng.fact(n >= 1)
        o.f['operands_'] = Cell(eng, Seq(eng, SP, n, lambda i: Ptr(nn(eng, f(toz(i, Int)))), sid=f), c+'.operands_')
        o.f[fl] = Cell(eng, Seq(eng, 'bool', n, lambda i: g(toz(i, Int)), sid=g), c+'.'+fl)
        o.ghost['n'] = n; o.ghost['op'] = f; o.ghost['fl'] = g
        th.lengths.append(n)
    elif c in UNARY:
        o.f['operand_'] = Cell(eng, child(eng, name+'_operand'), 'operand_')
        if c == 'IntegerPowerOperator':
            o.f['exponent_'] = Cell(eng, eng.sym_value('int', name+'_e'), 'exponent_')
    elif c == 'PowerOperator':
        o.f['base_'] = Cell(eng, child(eng, name+'_base')); o.f['exponent_'] = Cell(eng, child(eng, name+'_exp'))
        ex = o.f['exponent_'].v.target.term
        eng.assume(EV(ex, th.D) == EV(ex, NULLN))     # an exponent contains no differentials
    elif c in ('Function', 'Jacobian'):
        o.f['entry_node_'] = Cell(eng, child(eng, name+'_entry'))
        if c == 'Jacobian': o.f['current_diff_variable_'] = Cell(eng, Ptr(ANode(eng.fresh('curdiff', Node), PFX+'Variable')))
    elif c == 'Differential':
        o.f['differential_variable_'] = Cell(eng, child(eng, name+'_dv', PFX+'Variable'))
    elif c == 'Integer': o.f['true_value_'] = Cell(eng, eng.fresh(name+'_int', Int))
    elif c == 'Float': o.f['highest_precision_value_'] = Cell(eng, eng.fresh(name+'_float', Real))
    elif c == 'Rational':
        o.f['true_value_real_'] = Cell(eng, eng.fresh(name+'_re', Real)); o.f['true_value_imag_'] = Cell(eng, eng.fresh(name+'_im', Real))
    for k, cc in o.f.items():
        if not cc.name: cc.name = c+'.'+k
    return o
def nn(eng, t):
    eng.fact(t != NULLN); return ANode(t)

def spec_recs(eng, th, o, c):
    """ghost recursive spec of the aggregate, offered to the invariant templates"""
    if c == 'SumOperator': th.recs.append(th.aggfn(eng, 'sum', o.f['operands_'].v, o.f['signs_'].v, th.D))
    if c == 'MultOperator': th.recs.append(th.aggfn(eng, 'mult', o.f['operands_'].v, o.f['mult_or_div_'].v, th.D))
    for r in th.recs: r.depth = None

def find1(db, q, pred=lambda f: True):
    r = db.find(q, pred)
    if not r: raise Unsupported('function %s not found' % q)
    return r[0]

def method(db, cls, name, pred=lambda f: True):
    """the final overrider of a virtual method in cls"""
    for c in db.bases(cls):
        for f in db.find(c+'::'+name, lambda f: f.get('body') is not None and pred(f)): return f
    raise Unsupported('%s::%s not found' % (cls, name))

# ---- integer powers of a double: bertini::pow(z, n) ensures result = z^n
def pow_contract(eng, f, this, e):
    if len(f['pt']) == 2 and 'complex' in f['pt'][0] and strip_t(f['pt'][1]) == 'int':
        return MD.power(eng, eng.rv(e['args'][0]), eng.rv(e['args'][1]))
    return NotImplemented
def pow_lemmas(eng, b, e):
    """algebra of integer powers, instantiated at (b, e) (lemmas over the spec function, proved by induction on paper)"""
    P = MD.PW; b = toz(b, Real); e = toz(e, Int)
    for c in (P(b, z3.IntVal(0)) == 1, P(b, z3.IntVal(1)) == b,
              z3.Implies(e >= 0, P(b, e) == z3.If(e % 2 == 1, b, z3.RealVal(1))*P(b*b, e/2)),
              P(b*b, z3.IntVal(0)) == 1): eng.fact(c)
class PowTheory(NodeTheory):
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        R = [n for n, t in q if t.sort() == Real]; I = [n for n, t in q if t.sort() == Int]; d = dict(q)
        for a in R:
            for b in R:
                if a == b: continue
                for i in I:
                    if a in q0 and b in q0 and i in q0:
                        out.append(('%s*%s^%s' % (a, b, i), d[a]*MD.PW(d[b], d[i]) == q0[a]*MD.PW(q0[b], q0[i])))
                        pow_lemmas(eng, d[b], d[i])
        return out
def pow_group():
    def run(eng):
        th = eng.theory
        f = find1(eng.db, 'bertini::pow', lambda f: len(f['params']) == 2 and strip_t(f['params'][1]['t']) == 'int' and strip_t(f['params'][0]['t']) == DBL)
        z = eng.fresh('z', Real); n = eng.sym_value('int', 'n')
        eng.assume(z != 0)      # the inverse must exist for negative powers
        pow_lemmas(eng, z, n)
        eng.fact(z3.Implies(n < 0, MD.PW(1/z, -n) == MD.PW(z, n)))
        for i in range(1, 4):
            p = z
            for _ in range(i-1): p = p*z
            eng.fact(MD.PW(z, z3.IntVal(i)) == p)
        try: r = eng.call_fn(f, None, [Cell(eng, z), Cell(eng, n)])
        except (ThrowEx, AbortEx): return
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        eng.prove('pow(complex<double>, int): result = z^n', toz(r, Real) == MD.PW(z, n))
    def setup(eng): eng.contract_calls['bertini::pow'] = pow_contract
    return Group('eval/pow(complex,int)', ['bertini::pow'], run, PowTheory, setup=setup)
def setup_nodes(eng):
    eng.contract_calls['bertini::pow'] = pow_contract
def eval_group(short, tname, T):
    cls = PFX+short; c = short.split('::')[-1]; idx = 0 if T == DBL else 1
    def run(eng):
        th = eng.theory; th.V = None
        th.D = z3.Const('dvar', Node)
        o = make_node(eng, th, short)
        spec = th.sem(eng, o); spec = toz(spec, Real)
        spec_recs(eng, th, o, c)
        tp = o.f['current_value_'].v
        pr = tp.cells[idx].v
        f = find1(eng.db, PFX+'Node::EvalInPlace', lambda f: T in f['params'][0]['t'])
        d = Cell(eng, Ptr(ANode(th.D, PFX+'Variable')), 'd')
        if c == 'Jacobian':
            # the Jacobian handle caches per differential variable: valid flag means "value for current_diff_variable_"
            f = find1(eng.db, PFX+'Jacobian::EvalJInPlace', lambda f: T in f['params'][0]['t'])
            cur = th.term_of(eng, o.f['current_diff_variable_'].v)
            eng.assume(z3.Implies(pr.f['second'].v, pr.f['first'].v == toz(th.sem(eng, o, cur), Real)))
        else:
            eng.assume(z3.Implies(pr.f['second'].v, pr.f['first'].v == spec))     # cache invariant (requires)
        res = Cell(eng, eng.fresh('res0', Real), 'res')
        try: eng.call_fn(f, o, [res, d])
        except (ThrowEx, AbortEx): return
        v = toz(res.get(), Real)
        eng.prove('%s.Eval<%s>: result equals the mathematical value' % (short, tname), v == spec)
        pr = o.f['current_value_'].v.cells[idx].v
        eng.prove('%s.Eval<%s>: cache invariant re-established' % (short, tname), z3.Implies(toz(pr.f['second'].get(), BoolS), toz(pr.f['first'].get(), Real) == spec))
    return Group('eval/%s/%s' % (short, tname), [cls+'::FreshEval', PFX+'Node::EvalInPlace'], run, NodeTheory, setup=setup_nodes)

WI = z3.Const('any_operand', Int)
class ResetTheory(NodeTheory):
    """the ghost flag says that the arbitrary but fixed operand was reset"""
    def reset(s, eng): s.seen = None; s.opf = None; s.resets = []; super().reset(eng)
    def anode_call(s, eng, a, f, args):
        if f['n'] == 'Reset':
            t = a.term
            if s.opf is not None and z3.is_app(t) and t.decl().eq(s.opf): s.seen.set(z3.Or(toz(s.seen.get(), BoolS), t.arg(0) == WI))
            else: s.resets.append(t.get_id())
            return None
        return super().anode_call(eng, a, f, args)
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        if s.seen is not None:
            out += [('seen<k', z3.Implies(z3.And(WI >= 0, WI < k), toz(s.seen.get(), BoolS))), ('seen>=n-k', z3.Implies(z3.And(WI < s.n0, WI >= s.n0-k), toz(s.seen.get(), BoolS)))]
        return out
def reset_group(short):
    cls = PFX+short; c = short.split('::')[-1]
    def run(eng):
        th = eng.theory; th.V = None
        o = make_node(eng, th, short)
        if c in ('SumOperator', 'MultOperator'): th.opf = o.ghost['op']; th.n0 = o.ghost['n']; th.seen = Cell(eng, False, 'seen')
        f = method(eng.db, cls, 'Reset')
        try: eng.call_fn(f, o, [])
        except (ThrowEx, AbortEx): return
        lab = short+'.Reset: '
        if PFX+'Number' in eng.db.bases(cls): return eng.prove(lab+'a number has no operands to reset', z3.BoolVal(True))
        for i, (tn, T) in enumerate(NUMT):
            eng.prove(lab+'the stored %s value is invalid afterwards' % tn, z3.Not(toz(o.f['current_value_'].v.cells[i].v.f['second'].get(), BoolS)))
        if c in ('SumOperator', 'MultOperator'): eng.prove(lab+'every operand is reset', z3.Implies(z3.And(WI >= 0, WI < th.n0), toz(th.seen.get(), BoolS)))
        else:
            for n in ('operand_', 'base_', 'exponent_', 'entry_node_'):
                if n in o.f and isinstance(o.f[n].get(), Ptr): eng.prove(lab+n+' is reset', z3.BoolVal(o.f[n].get().target.term.get_id() in th.resets))
    return Group('reset/'+short, [cls+'::Reset', PFX+'Node::ResetStoredValues'], run, ResetTheory, setup=setup_nodes)
def variable_group(tname, T):
    cls = PFX+'Variable'; idx = 0 if T == DBL else 1
    def run(eng):
        th = eng.theory; th.V = None; o = make_node(eng, th, 'Variable'); v = eng.fresh('newvalue', Real)
        f = method(eng.db, cls, 'set_current_value', lambda f: strip_t(f['params'][0]['t']) == T)
        other = o.f['current_value_'].v.cells[1-idx].v.f['first'].get()
        try: eng.call_fn(f, o, [Cell(eng, v, 'val')])
        except (ThrowEx, AbortEx): return
        pr = o.f['current_value_'].v.cells[idx].v
        eng.prove('Variable.set_current_value<%s>: a valid stored value is the new one' % tname, z3.Implies(toz(pr.f['second'].get(), BoolS), toz(pr.f['first'].get(), Real) == v))
        eng.prove('Variable.set_current_value<%s>: the value of the other number type is kept' % tname, toz(o.f['current_value_'].v.cells[1-idx].v.f['first'].get(), Real) == toz(other, Real))
        g = find1(eng.db, PFX+'Node::EvalInPlace', lambda f: T in f['params'][0]['t'])
        for rep in (1, 2):
            res = Cell(eng, eng.fresh('res', Real), 'res')
            try: eng.call_fn(g, o, [res, Cell(eng, Ptr(ANode(z3.Const('dvar', Node), PFX+'Variable')), 'd')])
            except (ThrowEx, AbortEx): return
            eng.prove('Variable.Eval<%s>: evaluation %d returns the value that was set' % (tname, rep), toz(res.get(), Real) == v)
            if rep == 1: eng.call_fn(method(eng.db, cls, 'Reset'), o, [])
    return Group('eval/Variable/'+tname, [cls+'::set_current_value', cls+'::FreshEval', cls+'::Reset'], run, NodeTheory, setup=setup_nodes)
def eval_groups():
    return [pow_group()] + [eval_group(c, tn, T) for c in TREE for tn, T in NUMT] + [reset_group(c) for c in TREE+['Variable']] + [variable_group(tn, T) for tn, T in NUMT]

# ---------------------------------------------------------------- differentiation
def dspec(eng, th, o, c, v):
    """mathematical derivative of the node, from the values and derivatives of its children"""
    D = th.D
    e = lambda p: toz(th.ev(eng, p), Real)
    d = lambda p: DV(th.term_of(eng, p), v, D)
    g = lambda n: o.cell(n).get()
    u = lambda n, x: MD.uf(n)(toz(x, Real))
    if c == 'NegateOperator': return -d(g('operand_'))
    if c in ('Function', 'Jacobian'): return d(g('entry_node_'))
    if c in ('Integer', 'Float', 'Rational', 'Pi', 'E'): return z3.RealVal(0)
    if c == 'SumOperator':
        ops, fl = g('operands_'), g('signs_')
        R = Rec('DSUM', Real, 0, lambda k, a: z3.If(toz(fl.elem(k), BoolS), a + d(ops.elem(k)), a - d(ops.elem(k)))); R.base(eng); R.depth = None
        th.recs.append(R); return R.at(eng, ops.base_n)
    if c == 'MultOperator':
        ops, fl = g('operands_'), g('mult_or_div_')
        P = th.aggfn(eng, 'mult', ops, fl, D)
        # logarithmic form of the product rule: (prod)' = prod * sum of +- x_i'/x_i
        def nz(k): eng.fact(e(ops.elem(k)) != 0); return k
        L = Rec('LOGD', Real, 0, lambda k, a: z3.If(toz(fl.elem(nz(k)), BoolS), a + d(ops.elem(k))/e(ops.elem(k)), a - d(ops.elem(k))/e(ops.elem(k)))); L.base(eng); L.depth = None
        P.depth = None
        N = ops.base_n
        TOT = Rec('PROD', Real, 0, lambda k, a: a, params=())
        th.recs += [P, L]; th.mult = (P, L, ops, fl, N)
        return P.at(eng, N)*L.at(eng, N)
    if c == 'PowerOperator':
        b, x = g('base_'), g('exponent_')
        return e(x)*MD.PWR(e(b), e(x)-1)*d(b)
    if c == 'IntegerPowerOperator':
        n = g('exponent_'); b = g('operand_')
        return z3.ToReal(toz(n, Int))*toz(MD.power(eng, e(b), n-1), Real)*d(b)
    x = g('operand_'); xv = e(x); dx = d(x)
    if c == 'SqrtOperator': return dx/(2*u('sqrt', xv))
    if c == 'ExpOperator': return u('exp', xv)*dx
    if c == 'LogOperator': return dx/xv
    if c == 'SinOperator': return u('cos', xv)*dx
    if c == 'CosOperator': return -u('sin', xv)*dx
    if c == 'TanOperator': return dx/(u('cos', xv)*u('cos', xv))
    if c == 'ArcSinOperator': return dx/u('sqrt', 1-xv*xv)
    if c == 'ArcCosOperator': return -dx/u('sqrt', 1-xv*xv)
    if c == 'ArcTanOperator': return dx/(1+xv*xv)
    raise Unsupported('derivative of '+c)

class DiffTheory(NodeTheory):
    mult = None
    def reset(s, eng):
        s.mult = None; super().reset(eng)
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        if s.mult:
            P, L, ops, fl, N = s.mult
            out0 = []
            depth = len(eng.loopk)
            for n, t in q:
                if t.sort() != Real: continue
                # outer accumulators: total product times partial logarithmic derivative
                out0.append((n+'=P(N)*L(k)', t == P.at(eng, N)*L.at(eng, k)))
            # inner accumulators: product of the first k operands, without operand i
            ints = [eng.cells[u].v for u in sorted(eng.cells) if is_z(eng.cells[u].v) and eng.cells[u].v.sort() == Int and eng.cells[u].name in ('ii', 'i', 'jj', 'j', 'rfor')] if False else []
            if s.outer_i(eng) is not None:
                i = s.outer_i(eng)
                x = toz(s.ev(eng, ops.elem(i)), Real); f = toz(fl.elem(i), BoolS)
                for n, t in q:
                    if t.sort() != Real or n not in q0: continue
                    out0.append((n+'=old*P(k)/x_i', t == q0[n]*z3.If(k <= i, P.at(eng, k), z3.If(f, P.at(eng, k)/x, P.at(eng, k)*x))))
            out += out0
        return out
    def outer_i(s, eng): return eng.loopk[0] if eng.loopk else None

def not_float(eng, th, short, r):
    t = r.target
    eng.prove('%s.Differentiate: the result is not a Float node' % short, (t.cls != PFX+'Float') if isinstance(t, Obj) else CLS(t.term) != CODE[PFX+'Float'])
def diff_group(short):
    cls = PFX+short; c = short.split('::')[-1]
    def run(eng):
        th = eng.theory
        th.D = z3.Const('dvar', Node); v = z3.Const('v', Node); th.V = v
        o = make_node(eng, th, short)
        spec = toz(dspec(eng, th, o, c, v), Real)
        f = method(eng.db, cls, 'Differentiate', lambda f: len(f['params']) == 1)
        if c == 'PowerOperator':
            ex = o.f['exponent_'].v.target.term
            eng.assume(DV(ex, v, th.D) == 0)      # the exponent is constant (the documented domain of powers)
        if c == 'SqrtOperator':
            x = toz(th.ev(eng, o.f['operand_'].v), Real)
            eng.fact(MD.PWR(x, z3.RealVal(Fraction(-1, 2))) == 1/MD.uf('sqrt')(x))
        try: r = eng.call_fn(f, o, [Cell(eng, Ptr(ANode(v, PFX+'Variable')), 'v')])
        except (ThrowEx, AbortEx): return
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        eng.prove('%s.Differentiate: the returned expression has the value of the derivative' % short, toz(th.ev(eng, r), Real) == spec)
        not_float(eng, th, short, r)
    return Group('diff/%s' % short, [cls+'::Differentiate'], run, DiffTheory, setup=setup_nodes)

def diffvar_group():
    """Variable: derivative is 1 / 0, or the differential of the variable when no variable is named"""
    def run(eng):
        th = eng.theory; th.D = z3.Const('dvar', Node); v = z3.Const('v', Node); th.V = v
        o = Obj(eng, PFX+'Variable'); me = th.term_of(eng, Ptr(o))
        f = method(eng.db, PFX+'Variable', 'Differentiate', lambda f: len(f['params']) == 1)
        try: r = eng.call_fn(f, o, [Cell(eng, Ptr(ANode(v, PFX+'Variable')), 'v')])
        except (ThrowEx, AbortEx): return
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        not_float(eng, th, 'Variable', r)
        spec = z3.If(z3.If(v == NULLN, th.D, v) == me, z3.RealVal(1), z3.RealVal(0))
        eng.prove('Variable.Differentiate: 1 for itself, 0 otherwise, its differential for the total derivative', toz(th.ev(eng, r), Real) == spec)
    return Group('diff/Variable', [PFX+'Variable::Differentiate'], run, DiffTheory, setup=setup_nodes)
DIFFCL = ['SumOperator', 'MultOperator', 'NegateOperator', 'PowerOperator', 'IntegerPowerOperator', 'SqrtOperator', 'ExpOperator', 'LogOperator', 'SinOperator',
        'ArcSinOperator', 'CosOperator', 'ArcCosOperator', 'TanOperator', 'ArcTanOperator', 'Function', 'Integer', 'Float', 'Rational', 'special_number::Pi', 'special_number::E']
def diff_groups(): return [diff_group(c) for c in DIFFCL] + [diffvar_group()]
