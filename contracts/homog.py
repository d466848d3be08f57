"""Contracts of Homogenize and IsHomogeneous.
Homogenize(vars,h) of a child: its value is kept at every point with h = 1, afterwards it is homogeneous in vars+h of the degree it had in
vars (induction on the tree; polynomials only, others throw).  GH indexes DEG for vars together with h, in the state after the children
were homogenized.  HOM(n,g) = n is homogeneous in g."""
from .nodes import *
from .degree import DegTheory, group_arg, absorbing, agg_rec, norm, G
from engine import models as MD
GH = z3.Const('group_and_h', Node)
HOM = z3.Function('HOM', Node, Node, BoolS)
class HomTheory(DegTheory):
    fold_ptr = True
    def reset(s, eng): s.h = None; s.op0 = None; s.maxrec = None; s.homs = []; s.hcount = None; s.key = None; s.n0 = None; super().reset(eng)
    def group_key(s, eng, v):
        if not isinstance(v, Seq) or v.sid is None or v.sid is not s.vgroup.get().sid or v.over: raise Unsupported('degree with respect to another group')
        if not v.tail: return GH if s.h is not None and eng.entails(s.inside) else G
        if len(v.tail) == 1 and s.h is not None and s.term_of(eng, v.tail[0].get()).eq(s.h): return GH
        raise Unsupported('degree with respect to another group')
    def anode_call(s, eng, a, f, args):
        n = f['n']
        if n == 'Degree' and f['pt'] and 'vector' in f['pt'][0]:
            k = s.group_key(eng, eng.rv(args[0]))
            if k is GH and s.op0 is not None and s.hcount is not None:
                t = a.term
                if z3.is_app(t) and t.decl().eq(s.op0): eng.prove('degrees are taken after the operand was homogenized', t.arg(0) < toz(s.hcount.get(), Int))
            return DEG(a.term, k)
        if n == 'Homogenize':
            g = eng.rv(args[0]); h = s.argnode(eng, args, 1)
            ok = isinstance(g, Seq) and g.sid is s.vgroup.get().sid and not g.tail and not g.over
            eng.prove('operands are homogenized with the same group and variable', z3.And(h == s.h, z3.BoolVal(bool(ok))))
            if s.op0 is not None and z3.is_app(a.term) and a.term.decl().eq(s.op0):
                if eng.entails(a.term.arg(0) == toz(s.hcount.get(), Int)): s.hcount.set(eng.add(s.hcount.get(), 1))
            else: s.homs.append(a.term)
            return None
        if n == 'IsHomogeneous':
            if f['pt'] and 'vector' in f['pt'][0]: return HOM(a.term, s.group_key(eng, eng.rv(args[0])))
            return HOM(a.term, s.argnode(eng, args, 0))
        return super().anode_call(eng, a, f, args)
    def unroll(s, eng, k):
        super().unroll(eng, k)
        if s.maxrec is not None:
            N = s.n0; d = DEG(s.op0(k), GH)
            eng.fact(z3.Implies(z3.And(k >= 0, k < N), s.maxrec.at(eng, N) >= d))     # lemma, step obligation in run
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        for R in s.recs:
            if R.sort == BoolS: out += [(R.name+'=T', R.at(eng, k)), (R.name+'@1=T', R.at(eng, z3.simplify(k+1)))]
        for n, t in q:
            if s.n0 is not None and t.sort() == Int and n[0] in 'cni' and not n.startswith('cls'): out.append((n+'<=N', t <= s.n0))
        return out
    def elem_templates(s, eng, el, el0, ix, k, n):
        if s.op0 is None: return
        if el.sort() == Int:
            yield 'deg<k', z3.Implies(z3.And(ix >= 0, ix < k), el == DEG(s.op0(ix), GH))
            yield 'deg>=0', z3.Implies(z3.And(ix >= 0, ix < k), el >= 0)
        if el.sort() == Node:
            yield 'node', z3.Implies(z3.And(ix >= 0, ix < k), z3.And(EV(el, s.D) == EV(el0, s.D), el != NULLN))
            yield 'deg', z3.Implies(z3.And(ix >= 0, ix < k), DEG(el, GH) == s.maxrec.at(eng, s.n0))
            yield 'hom', z3.Implies(z3.And(ix >= 0, ix < k), HOM(el, GH))
    def term_of(s, eng, p):
        t = super().term_of(eng, p)
        o = p.target
        if isinstance(o, Obj) and 'homfacts' not in o.ghost and s.h is not None:
            o.ghost['homfacts'] = 1; c = o.cls.split('::')[-1]
            # contracts of Eval, Degree and IsHomogeneous (proved with P01, P05 and below) for the new node
            if c in ('MultOperator', 'IntegerPowerOperator'):
                eng.fact(EV(t, s.D) == toz(s.sem(eng, o), Real))
                if c == 'IntegerPowerOperator':
                    x = s.term_of(eng, o.f['operand_'].get()); e = toz(o.f['exponent_'].get(), Int)
                    eng.fact(z3.Implies(EV(x, s.D) == 1, MD.PW(EV(x, s.D), e) == 1))
                    eng.fact(DEG(t, GH) == z3.If(z3.Or(DEG(x, GH) < 0, e < 0), z3.IntVal(-1), DEG(x, GH)*e)); eng.fact(HOM(t, GH) == HOM(x, GH))
                else:
                    d = z3.IntVal(0); hm = []
                    if is_z(o.f['operands_'].get().base_n) or o.f['operands_'].get().base_n: raise Unsupported('product')
                    for c2, fl in zip(o.f['operands_'].get().tail, o.f['mult_or_div_'].get().tail):
                        x = s.term_of(eng, c2.get())
                        if fl.get() is not True: raise Unsupported('quotient')
                        d = z3.If(z3.Or(d < 0, DEG(x, GH) < 0), z3.IntVal(-1), d + DEG(x, GH)); hm.append(HOM(x, GH))
                    eng.fact(DEG(t, GH) == d); eng.fact(HOM(t, GH) == z3.And(hm))
        return t
    def argnode(s, eng, args, i):
        if i >= len(args): return NULLN
        return super().argnode(eng, args, i)
def find_model(eng, th):
    def m(eng2, e, f):
        a, b, x = eng.rv(e['args'][0]), eng.rv(e['args'][1]), eng.rv(e['args'][2])
        if not (isinstance(a, Iter) and isinstance(x, Ptr)): return NotImplemented
        if eng.branch(th.inside):
            i = eng.fresh('found', Int); eng.fact(z3.And(i >= 0, i < th.N, th.gf(i) == th.h)); return Iter(a.seq, i)
        return Iter(b.seq, b.i)
    eng.models['std::find'] = m
def homogenize_group(short):
    cls = PFX+short; c = short.split('::')[-1]
    def run(eng):
        th = eng.theory; th.V = None; th.D = z3.Const('point', Node)
        arg = group_arg(eng, th); h = z3.Const('h', Node); eng.fact(h != NULLN); th.h = h; th.inside = z3.Bool('h_in_group')
        eng.fact(z3.Implies(z3.Not(th.inside), z3.BoolVal(True)))
        eng.fact(EV(h, th.D) == 1); eng.fact(DEG(h, GH) == 1); eng.fact(HOM(h, GH)); find_model(eng, th)
        if c == 'Variable':
            o = Obj(eng, cls); o.term = z3.Const('self', Node)
        else: o = make_node(eng, th, short)
        lab = short+'.Homogenize'
        if c in ('SumOperator', 'MultOperator'):
            th.op0 = o.ghost['op']; th.n0 = o.ghost['n']; th.hcount = Cell(eng, 0, 'homogenized'); N = th.n0
            ops0 = o.f['operands_'].v; el0 = ops0.elem
            nm = 'signs_' if c == 'SumOperator' else 'mult_or_div_'; fl0 = o.f[nm].v
            def el(i):
                p = el0(i); eng.fact(HOM(p.target.term, GH)); return p       # contract of the child's Homogenize
            ops0.elem = el
            if c == 'SumOperator':
                R = Rec('MAXDEG', Int, 0, lambda k, a: z3.If(DEG(th.op0(k), GH) > a, DEG(th.op0(k), GH), a)); R.base(eng); R.depth = None
                k = eng.fresh('lk', Int); x = eng.fresh('bound', Int); R.unroll(eng, k)
                eng.prove('lemma MAXDEG: monotone step', z3.And(z3.Implies(R.at(eng, k) >= x, R.at(eng, z3.simplify(k+1)) >= x), R.at(eng, z3.simplify(k+1)) >= DEG(th.op0(k), GH)))
                th.recs.append(R); th.maxrec = R
        f = method(eng.db, cls, 'Homogenize', lambda f: len(f['params']) == 2)
        try: eng.call_fn(f, o, [arg, Cell(eng, Ptr(ANode(h, PFX+'Variable')), 'homvar')])
        except (ThrowEx, AbortEx): return
        if c in ('SumOperator', 'MultOperator'):
            a, b = o.f['operands_'].get(), o.f[nm].get()
            eng.prove(lab+': every operand was homogenized', toz(th.hcount.get(), Int) == N)
            eng.prove(lab+': number of operands and flags unchanged', z3.And(toz(a.size(), Int) == N, toz(b.size(), Int) == N))
            eng.fact(z3.And(WJ >= 0, WJ < N))
            x = eng.peek(a, WJ); y = eng.peek(b, WJ)
            if x is None or y is None: raise Unsupported('operands after Homogenize')
            el(WJ); eng.prove(lab+': flags unchanged', y == toz(fl0.elem(WJ), BoolS))
            eng.prove(lab+': operand keeps its value where h is one', EV(x, th.D) == EV(th.op0(WJ), th.D))
            if c == 'SumOperator':
                eng.prove(lab+': every operand has the highest degree', DEG(x, GH) == th.maxrec.at(eng, N))
                eng.prove(lab+': every operand is homogeneous', HOM(x, GH))
        elif c == 'PowerOperator':
            eng.prove(lab+': the base was homogenized', z3.BoolVal([t.get_id() for t in th.homs] == [o.f['base_'].get().target.term.get_id()]))
        elif c in UNARY or c in ('Function', 'Jacobian'):
            t = o.f['operand_' if c in UNARY else 'entry_node_'].get().target.term
            eng.prove(lab+': the operand was homogenized', z3.BoolVal([x.get_id() for x in th.homs] == [t.get_id()]))
        else: eng.prove(lab+': nothing to do', z3.BoolVal(not th.homs))
    return Group('homogenize/'+short, [cls+'::Homogenize'], run, HomTheory, setup=setup_nodes)
def ishom_group(short, kind):
    cls = PFX+short; c = short.split('::')[-1]
    isvec = lambda f: len(f['params']) == 1 and 'vector' in f['params'][0]['t']
    def run(eng):
        th = eng.theory; th.V = None; th.D = NULLN
        if c == 'Variable': o = Obj(eng, cls); o.term = z3.Const('self', Node)
        else: o = make_node(eng, th, short)
        if kind == 'one': key = z3.Const('v', Node); arg = Cell(eng, Ptr(ANode(key, PFX+'Variable')), 'v')
        else: arg = group_arg(eng, th); key = G
        lab = '%s.IsHomogeneous(%s)' % (short, 'variable' if kind == 'one' else 'group')
        t = lambda n: th.term_of(eng, o.f[n].get())
        if c in ('SumOperator', 'MultOperator'):
            op = o.ghost['op']; N = o.ghost['n']
            A = Rec('ALLHOM', BoolS, True, lambda k, a: z3.And(a, HOM(op(k), key))); A.base(eng); A.depth = None; th.recs.append(A); absorbing(eng, th, A, lambda x: z3.Not(x), N)
            spec = A.at(eng, N)
            if c == 'SumOperator':
                B = Rec('SAMEDEG', BoolS, True, lambda k, a: z3.And(a, DEG(op(k), key) == DEG(op(z3.IntVal(0)), key))); B.base(eng); B.depth = None; th.recs.append(B); absorbing(eng, th, B, lambda x: z3.Not(x), N)
                spec = z3.And(spec, B.at(eng, N), DEG(op(z3.IntVal(0)), key) >= 0)
        elif c == 'PowerOperator':
            e = EV(t('exponent_'), NULLN); spec = z3.And(DEG(t('exponent_'), key) == 0, HOM(t('base_'), key))
        elif c in ('NegateOperator', 'IntegerPowerOperator'): spec = HOM(t('operand_'), key)
        elif c in ('Function', 'Jacobian'): spec = HOM(t('entry_node_'), key)
        elif c in TRANSN:
            OWN = eng.fresh('owndeg', Int); spec = OWN == 0
            def dc(eng2, f2, this, e):
                if f2['n'] != 'Degree' or this is None or this.get() is not o or ('vector' in f2['pt'][0]) != (kind == 'group'): return NotImplemented
                if kind == 'group' and th.group_key(eng, eng.rv(e['args'][0])) is not G: raise Unsupported('group')
                if kind == 'one' and not th.argnode(eng, e['args'], 0).eq(key): raise Unsupported('variable')
                return OWN
            for cc in eng.db.bases(cls): eng.contract_calls[cc+'::Degree'] = dc
        else: spec = z3.BoolVal(True)
        f = method(eng.db, cls, 'IsHomogeneous', isvec if kind == 'group' else lambda f: not isvec(f) and len(f['params']) == 1)
        try: r = eng.call_fn(f, o, [arg])
        except (ThrowEx, AbortEx): return
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        r = toz(r, BoolS)
        if c == 'PowerOperator': eng.prove(lab+': reported homogeneous only if the exponent is constant and the base homogeneous', z3.Implies(r, spec))
        else: eng.prove(lab+': reported homogeneous exactly if it is', r == spec)
    return Group('ishomogeneous/%s/%s' % (short, kind), [cls+'::IsHomogeneous'], run, HomTheory, setup=setup_nodes)
HCL = ['Variable', 'SumOperator', 'MultOperator', 'NegateOperator', 'PowerOperator', 'IntegerPowerOperator', 'SqrtOperator', 'ExpOperator', 'LogOperator', 'SinOperator', 'ArcSinOperator',
       'CosOperator', 'ArcCosOperator', 'TanOperator', 'ArcTanOperator', 'Function', 'Integer', 'Float', 'Rational', 'special_number::Pi', 'special_number::E', 'Differential']
def homog_groups(): return [homogenize_group(c) for c in HCL] + [ishom_group(c, k) for c in HCL for k in ('one', 'group')]
