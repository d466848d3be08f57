"""Theory of expression nodes: every node n is an element of an uninterpreted sort; the virtual interface of Node is
used only through its contract (spec functions EV, DV, DEG, ...), by induction on the tree."""
import z3
from fractions import Fraction
from .symex import *
from . import models as MD

Node = z3.DeclareSort('Node')
NULLN = z3.Const('nullnode', Node)
EV = z3.Function('EV', Node, Node, Real)          # value of n when the differential variable is d
DV = z3.Function('DV', Node, Node, Node, Real)    # derivative of n with respect to v (v null: total differential), at d
DEG = z3.Function('DEG', Node, Node, Int)         # formal degree of n in v; negative: not polynomial
DIFF = z3.Function('DIFFN', Node, Node, Node)     # node returned by Differentiate
CLS = z3.Function('CLS', Node, Int)               # dynamic class code
PFX = 'bertini::node::'
CLASSES = ['Variable','Differential','Float','Integer','Rational','special_number::Pi','special_number::E','Function','Jacobian',
  'SumOperator','NegateOperator','MultOperator','PowerOperator','IntegerPowerOperator','SqrtOperator','ExpOperator','LogOperator',
  'SinOperator','ArcSinOperator','CosOperator','ArcCosOperator','TanOperator','ArcTanOperator','LinearProduct','DiffLinear']
CODE = {PFX+c: i+1 for i, c in enumerate(CLASSES)}
ABSTRACT = {PFX+'Number': ['Float','Integer','Rational','special_number::Pi','special_number::E'],
            PFX+'Node': CLASSES, PFX+'Operator': [c for c in CLASSES if 'Operator' in c],
            PFX+'Handle': ['Function','Jacobian'], PFX+'NaryOperator': ['SumOperator','MultOperator'],
            PFX+'TrigOperator': ['SinOperator','ArcSinOperator','CosOperator','ArcCosOperator','TanOperator','ArcTanOperator']}
NUMBERS = ABSTRACT[PFX+'Number']
UNARY = {'NegateOperator','IntegerPowerOperator','SqrtOperator','ExpOperator','LogOperator','SinOperator','ArcSinOperator','CosOperator','ArcCosOperator','TanOperator','ArcTanOperator'}
TRANSN = {'SqrtOperator':'sqrt','ExpOperator':'exp','LogOperator':'log','SinOperator':'sin','ArcSinOperator':'asin','CosOperator':'cos','ArcCosOperator':'acos','TanOperator':'tan','ArcTanOperator':'atan'}

class Rec:
    """ghost recursive function over the iteration index: F(0)=init, F(k+1)=step(k,F(k))"""
    def __init__(s, name, sort, init, step, depth=0, params=()):
        s.name = name; s.sort = sort; s.init = init; s.step = step; s.depth = depth; s.nparams = len(params); s.params = params
        s.F = z3.Function(name, *([p.sort() for p in params] + [Int, sort]))
    def at(s, eng, k):
        return s.F(*(list(s.params)+[toz(k, Int)]))
    def base(s, eng):
        eng.fact(s.F(*(list(s.params)+[z3.IntVal(0)])) == toz(s.init, s.sort))
        s.unroll(eng, z3.IntVal(0))
    def unroll(s, eng, k):
        k = toz(k, Int)
        eng.fact(s.F(*(list(s.params)+[z3.simplify(k+1)])) == toz(s.step(k, s.at(eng, k)), s.sort))
        if not z3.simplify(k+1).eq(k+1): eng.fact(s.F(*(list(s.params)+[k+1])) == s.F(*(list(s.params)+[z3.simplify(k+1)])))

class NodeTheory:
    Node = Node
    def __init__(s): s.contract = None
    def reset(s, eng):
        s.recs = []; s.D = z3.Const('dvar', Node); s.lengths = []; s.objs = []; s.seen_lib = set(); s.ptrcls = getattr(s, 'ptrcls', {})
        eng.fact(NULLN == NULLN)
        s.aggcache = {}
        s.dv_known = {}
    # -------- pointers
    def sym_ptr(s, eng, t, name):
        t = strip_t(t)
        if t.startswith(PFX):
            n = eng.fresh(name, Node); 
            return Ptr(ANode(n, t))
        if eng.db.record(t):
            return Ptr(Obj(eng, t))
        return Ptr(Opaque(t))
    def nonnull(s, eng, a): return a.term != NULLN
    def term_of(s, eng, p):
        """node term of a Ptr"""
        if p.target is None: return NULLN
        if isinstance(p.target, ANode): return p.target.term
        o = p.target
        if o.term is None:
            o.term = eng.fresh('new_'+o.cls.split('::')[-1], Node)
            eng.fact(o.term != NULLN)
            if o.cls in CODE: eng.fact(CLS(o.term) == CODE[o.cls])
        return o.term
    def codes(s, cls):
        if cls in CODE: return [CODE[cls]]
        if cls in ABSTRACT: return [CODE[PFX+c] for c in ABSTRACT[cls]]
        return None
    def dyncast(s, eng, a, cls):
        cs = s.codes(cls)
        if cs is None: raise Unsupported('dynamic cast to '+cls)
        if a.cls and a.cls in CODE and CODE[a.cls] in cs: return Ptr(a)
        cond = z3.And(a.term != NULLN, z3.Or([CLS(a.term) == c for c in cs]))
        if eng.branch(cond):
            r = ANode(a.term, cls)
            s.class_facts(eng, r, cls)
            return Ptr(r)
        return Ptr(None)
    def class_facts(s, eng, a, cls):
        if cls == PFX+'Number' or cls in [PFX+c for c in NUMBERS]:
            d = s.D
            eng.fact(DV(a.term, s.V, d) == 0) if getattr(s, 'V', None) is not None else None
            eng.fact(EV(a.term, d) == EV(a.term, NULLN))
    def havoc_ptr(s, eng, v, nm):
        # class split recorded by the candidates machinery
        key = nm
        classes = sorted(s.ptrcls.get(key, set()) | {s.clsname(v)})
        i = eng.choose(len(classes), 'ptrclass')
        c = classes[i]
        if c == '?': return Ptr(ANode(eng.fresh(nm, Node)))
        o = Obj(eng, c); s.make_abstract_fields(eng, o, nm)
        return Ptr(o)
    def clsname(s, v):
        if isinstance(v.target, Obj): return v.target.cls
        return '?'
    def make_abstract_fields(s, eng, o, nm):
        short = o.cls.split('::')[-1]
        s.objs.append(o)
        if short in ('SumOperator', 'MultOperator'):
            fl = 'signs_' if short == 'SumOperator' else 'mult_or_div_'
            f = eng.freshfn(nm+'_ops', Int, Node); g = eng.freshfn(nm+'_fl', Int, BoolS); n = eng.fresh(nm+'_n', Int)
            eng.fact(n >= 0)
            o.f['operands_'] = Cell(eng, Seq(eng, 'std::shared_ptr<bertini::node::Node>', n, lambda i: Ptr(ANode(f(toz(i, Int)))), sid=f), short+'.operands_')
            o.f[fl] = Cell(eng, Seq(eng, 'bool', n, lambda i: g(toz(i, Int)), sid=g), short+'.'+fl)
        elif short == 'Integer': o.f['true_value_'] = Cell(eng, eng.fresh(nm+'_ival', Int))
        else: o.ghost['opaque_ev'] = eng.fresh(nm+'_ev', Real)
    # -------- values of nodes
    def ev(s, eng, p, d=None):
        d = s.D if d is None else d
        if isinstance(p, Ptr): p = p.target
        if p is None: raise AbortEx()
        if isinstance(p, ANode): return EV(p.term, d)
        if isinstance(p, Obj): return s.sem(eng, p, d)
        raise Unsupported('ev of %r' % (p,))
    def agg(s, eng, kind, ops, fl, d):
        """sum / product of a vector of operands with its flags"""
        neutral = Fraction(0) if kind == 'sum' else Fraction(1)
        def term(acc, flag, v):
            if isinstance(flag, bool):
                if kind == 'sum': return eng.add(acc, v) if flag else eng.sub(acc, v)
                return eng.mul(acc, v) if flag else eng.div(acc, v)
            if kind == 'sum': a, b = eng.add(acc, v), eng.sub(acc, v)
            else:
                if is_z(v): eng.fact(z3.Implies(z3.Not(flag), toz(v, Real) != 0))
                a, b = eng.mul(acc, v), toz(acc, Real)/toz(v, Real)
            return z3.If(flag, toz(a, Real), toz(b, Real))
        r = neutral
        zb = lambda x: is_z(x) or x != 0
        if zb(ops.base_n) or zb(fl.base_n):
            if ops.over or fl.over: raise Unsupported('aggregate over modified base')
            if not (is_z(ops.base_n) and is_z(fl.base_n)): 
                raise Unsupported('aggregate of mixed sequences')
            if not ops.base_n.eq(fl.base_n) and not eng.entails(ops.base_n == fl.base_n): raise Unsupported('operand and flag counts differ')
            F = s.aggfn(eng, kind, ops, fl, d)
            r = F.at(eng, ops.base_n)
        if len(ops.tail) != len(fl.tail): raise Unsupported('operand and flag counts differ')
        for c, f in zip(ops.tail, fl.tail): r = term(r, f.get(), s.ev(eng, c.get(), d))
        return r
    def aggfn(s, eng, kind, ops, fl, d):
        key = (kind, ops.sid.name(), fl.sid.name(), str(d))
        if key in s.aggcache: return s.aggcache[key]
        def step(k, acc):
            v = s.ev(eng, ops.elem(k), d); f = toz(fl.elem(k), BoolS)
            v = toz(v, Real)
            if kind != 'sum': eng.fact(z3.Implies(z3.Not(f), v != 0))
            return z3.If(f, acc + v, acc - v) if kind == 'sum' else z3.If(f, acc*v, acc/v)
        R = Rec('%s[%s,%s]' % (kind.upper(), ops.sid.name(), fl.sid.name())+('' if d.eq(s.D) else str(d)), Real, 0 if kind == 'sum' else 1, step)
        R.base(eng); s.aggcache[key] = R
        return R
    def sem(s, eng, o, d=None):
        d = s.D if d is None else d
        c = o.cls.split('::')[-1]
        if 'opaque_ev' in o.ghost: return o.ghost['opaque_ev']
        g = lambda n: o.cell(n).get()
        if c == 'SumOperator': return s.agg(eng, 'sum', g('operands_'), g('signs_'), d)
        if c == 'MultOperator': return s.agg(eng, 'mult', g('operands_'), g('mult_or_div_'), d)
        if c == 'NegateOperator': return eng.neg(s.ev(eng, g('operand_'), d))
        if c == 'PowerOperator': return s.powsem(eng, s.ev(eng, g('base_'), d), s.ev(eng, g('exponent_'), d))
        if c == 'IntegerPowerOperator': return MD.power(eng, s.ev(eng, g('operand_'), d), g('exponent_'))
        if c in TRANSN: return MD.uf(TRANSN[c])(toz(s.ev(eng, g('operand_'), d), Real))
        if c == 'Integer': return eng.coerce(g('true_value_'), 'double')
        if c == 'Float': return g('highest_precision_value_')
        if c == 'Rational':
            r, i = g('true_value_real_'), g('true_value_imag_')
            if is_num(i) and i == 0: return r
            return eng.cplx(r, i)
        if c == 'Pi': return MD.uf('acos')(z3.RealVal(-1))
        if c == 'E': return MD.uf('exp')(z3.RealVal(1))
        if c == 'Variable': return s.varvalue(eng, o)
        if c == 'Differential': return s.diffvalue(eng, o, d)
        if c in ('Function', 'Handle', 'Jacobian'): return s.ev(eng, g('entry_node_'), d)
        raise Unsupported('semantics of '+o.cls)
    def powsem(s, eng, b, e): return MD.power(eng, b, e) if not (is_z(e) and e.sort() == Real) else MD.PWR(toz(b, Real), e)
    def varvalue(s, eng, o): return EV(s.term_of(eng, Ptr(o)), NULLN)
    def diffvalue(s, eng, o, d):
        v = s.term_of(eng, o.cell('differential_variable_').get())
        return z3.If(v == d, z3.RealVal(1), z3.RealVal(0))
    # -------- calls on abstract nodes: the virtual contracts
    def argnode(s, eng, args, i):
        if i >= len(args): return NULLN
        v = eng.rv(args[i])
        if isinstance(v, Ptr): return s.term_of(eng, v)
        raise Unsupported('node argument')
    def anode_call(s, eng, a, f, args):
        n = f['n']
        c = s.contract
        if c is not None and hasattr(c, 'anode_call'):
            r = c.anode_call(s, eng, a, f, args)
            if r is not NotImplemented: return r
        if n == 'Eval': return EV(a.term, s.argnode(eng, args, 0))
        if n == 'EvalInPlace':
            cell = eng.lv(args[0]); d = s.argnode(eng, args, 1); cell.set(EV(a.term, d)); return None
        if n == 'Differentiate':
            v = s.argnode(eng, args, 0); r = DIFF(a.term, v)
            eng.fact(EV(r, s.D) == DV(a.term, v, s.D)); eng.fact(r != NULLN)
            eng.fact(CLS(r) != CODE[PFX+'Float'])     # ensured by every Differentiate (proved with it)
            # derivatives of children are ordinary nodes
            return Ptr(ANode(r))
        if n == 'Degree' and 'vector' not in f['pt'][0]:
            return DEG(a.term, s.argnode(eng, args, 0))
        if n in ('print', 'Reset', 'precision'): return None
        return NotImplemented
    def anode_field(s, eng, a, name):
        raise Unsupported('field %s of abstract node' % name)
    # -------- invariants
    def quantities(s, eng, W):
        out = []
        for u in sorted(W):
            c = eng.cells.get(u)
            if c is None: continue
            if isinstance(c.v, Ptr):
                key = 'h_'+(c.name or 'v'); s.ptrcls.setdefault(key, set()).add(s.clsname(c.v))
                try: out.append(('ev%d' % u, toz(s.ev(eng, c.v), Real)))
                except (Unsupported, AbortEx): pass
                t = c.v.target
                out.append(('cls%d' % u, z3.IntVal(CODE.get(t.cls, 0) if isinstance(t, Obj) else -1)))
        # aggregates of node objects
        done = set()
        def addagg(tag, ops, fl, kind):
            try: out.append((tag, toz(s.agg(eng, kind, ops, fl, s.D), Real)))
            except Unsupported: pass
        seqs = [(u, eng.cells[u].v) for u in sorted(W) if u in eng.cells and isinstance(eng.cells[u].v, Seq)]
        P = [(u, q) for u, q in seqs if is_sptr_t(q.et)]; B = [(u, q) for u, q in seqs if strip_t(q.et) == 'bool']
        for u, p in P:
            for w, b in B:
                addagg('sum%d_%d' % (u, w), p, b, 'sum'); addagg('mul%d_%d' % (u, w), p, b, 'mult')
                out.append(('dn%d_%d' % (u, w), toz(p.size(), Int) - toz(b.size(), Int)))
        return out
    def progress(s, eng, sort, depth):
        # depth: number of enclosing loops already open
        out = []
        for r in s.recs:
            if r.sort == sort and r.depth in (depth, depth-1, None):
                out.append((r.name, lambda k, r=r: r.at(eng, k)))
                out.append((r.name+'@1', lambda k, r=r: r.at(eng, z3.simplify(k+1))))
        return out
    def unroll(s, eng, k):
        for r in s.recs:
            r.unroll(eng, k); r.unroll(eng, z3.simplify(k+1))
        for key, r in list(s.aggcache.items()): pass
    def extra_candidates(s, eng, q, q0, k, occ):
        out = []
        d = dict(q)
        for n, t in q:
            if n.startswith('cls') and n in q0:
                en = 'ev'+n[3:]
                if en in d and en in q0: out.append((n+'->'+en, z3.Implies(t == q0[n], d[en] == q0[en])))
                for m, u in q:
                    if m[0] in 'c' and not m.startswith('cls') and u.sort() == Int:
                        out.append((n+'~'+m, (u == 0) == (t == q0[n])))
            if n.startswith('dn'): out.append((n+'=0', t == 0))
            if t.sort() == Int and (n[0] in 'ci') and not n.startswith('cls'):
                for j, L in enumerate(s.lengths): out.append((n+'<=L%d' % j, t <= L))
        if s.contract is not None and hasattr(s.contract, 'extra_candidates'): out += s.contract.extra_candidates(s, eng, q, q0, k, occ)
        return out
    def opaque_num(s, eng, v): raise Unsupported('number from '+v.t)
    def matmul(s, eng, a, b): raise Unsupported('matrix product')
    def mat_fn(s, eng, n, m, f): raise Unsupported('matrix '+n)
    def eigen(s, eng, f, this, args, e, n): return NotImplemented
