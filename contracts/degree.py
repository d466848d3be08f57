"""Contracts of Degree, MultiDegree and IsPolynomial.  Degree(v) of a child is the spec function DEG(child, v); negative means
not polynomial.  The postcondition compares up to which negative number is used."""
from .nodes import *
from engine import models as MD
G = z3.Const('group', Node)          # the variable group as an index of DEG
norm = lambda x: z3.If(x < 0, z3.IntVal(-1), x)

class DegTheory(NodeTheory):
    vgroup = None; rec = None
    def reset(s, eng): s.especs = lambda ix: (); s.vgroup = None; s.rec = None; s.absorb = []; super().reset(eng)
    def anode_call(s, eng, a, f, args):
        n = f['n']
        if n == 'Degree' and f['pt'] and 'vector' in f['pt'][0]:
            v = eng.rv(args[0])
            if v is not s.vgroup.get(): raise Unsupported('degree with respect to another group')
            return DEG(a.term, G)
        if n == 'MultiDegree':
            v = eng.rv(args[0])
            if v is not s.vgroup.get(): raise Unsupported('degree with respect to another group')
            fn = eng.freshfn('mdeg', Int, Int)
            def el(i):
                i = toz(i, Int); t = fn(i); eng.fact(t == DEG(a.term, s.gf(i))); return t
            return Seq(eng, 'int', s.N, el, sid=fn)
        if n == 'GetVariable' and a.cls == PFX+'Differential': return Ptr(ANode(eng.fresh('dvar', Node), PFX+'Variable'))
        return super().anode_call(eng, a, f, args)
    def unroll(s, eng, k):
        super().unroll(eng, k)
        for R, neg, N in s.absorb:
            for j in (k, z3.simplify(k+1)):
                j1 = z3.simplify(j+1)
                eng.fact(z3.Implies(z3.And(j1 <= N, neg(R.at(eng, j1))), neg(R.at(eng, N))))
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        for R in s.recs:
            if R.sort == Int:
                r = R.at(eng, k)
                out += [(R.name+'=init', r == toz(R.init, Int)), (R.name+'<=0', r <= 0), (R.name+'>=-1', r >= -1)]
        for n, t in q:
            if s.rec is not None and t.sort() == Int and n[0] == 'c' and not n.startswith('cls'):
                R, nf = s.rec; out.append((n+'~rec', nf(t) == R.at(eng, k)))
        return out
    def elem_templates(s, eng, el, el0, ix, k, n):
        if el.sort() != Int: return
        for tag, spec in s.especs(ix):
            yield tag+'<k', z3.Implies(z3.And(ix >= 0, ix < k), el == spec)
            yield tag+'<n', z3.Implies(z3.And(ix >= 0, ix < n), el == spec)
        if s.rec is not None and ix.eq(WJ):
            R, nf = s.rec
            i = eng.loopk[0] if eng.loopk else None
            yield '~rec', nf(el) == R.at(eng, k)
            if i is not None:
                yield 'step', z3.Implies(k > ix, nf(el) == R.at(eng, z3.simplify(i+1)))
                yield 'cur', z3.Implies(k <= ix, nf(el) == R.at(eng, i))
    especs = staticmethod(lambda ix: ())
def absorbing(eng, th, R, neg, N):
    """lemma, by induction on the index: once negative, the recursion stays negative; the step is an obligation"""
    k = eng.fresh('lk', Int); eng.fact(k >= 0); R.unroll(eng, k)
    eng.prove('lemma %s: absorbing step' % R.name, z3.Implies(neg(R.at(eng, k)), neg(R.at(eng, z3.simplify(k+1)))))
    th.absorb.append((R, neg, N))
    eng.fact(z3.Implies(neg(R.at(eng, z3.IntVal(1))), z3.Implies(N >= 1, neg(R.at(eng, N)))))
def group_arg(eng, th):
    th.N = eng.fresh('gn', Int); eng.fact(th.N >= 0); g = eng.freshfn('g', Int, Node)
    def gf(i):
        t = g(toz(i, Int)); eng.fact(t != NULLN); return t
    th.gf = gf
    q = Seq(eng, 'std::shared_ptr<bertini::node::Variable>', th.N, lambda i: Ptr(ANode(gf(i), PFX+'Variable')), sid=g)
    th.vgroup = Cell(eng, q, 'vars'); th.lengths.append(th.N)
    return th.vgroup
def agg_rec(eng, th, o, c, key):
    """degree of a sum / product of the operands in key"""
    ops = o.f['operands_'].v
    dg = lambda k: DEG(th.term_of(eng, ops.elem(k)), key)
    if c == 'SumOperator': step = lambda k, a: z3.If(z3.Or(a < 0, dg(k) < 0), z3.IntVal(-1), z3.If(dg(k) > a, dg(k), a))
    else:
        fl = o.f['mult_or_div_'].v
        step = lambda k, a: z3.If(z3.Or(a < 0, dg(k) < 0, z3.And(z3.Not(toz(fl.elem(k), BoolS)), dg(k) != 0)), z3.IntVal(-1), a + dg(k))
    R = Rec('FDEG', Int, 0, step); R.base(eng); R.depth = None
    return R
def pow_spec(eng, th, o, b, x):
    v = EV(th.term_of(eng, o.f['exponent_'].v), NULLN)
    re, im = MD.uf('re')(v), MD.uf('im')(v); tol = z3.RealVal(Fraction(10, 2**52))
    h = z3.RealVal(Fraction(1, 2)); rnd = z3.If(re >= 0, z3.ToReal(z3.ToInt(re+h)), -z3.ToReal(z3.ToInt(h-re)))
    ab = lambda t: z3.If(t >= 0, t, -t)
    isint = z3.And(im == 0, re == rnd)
    # exponents within rounding of an integer but different from it are outside the statement
    eng.assume(z3.Or(isint, ab(im) >= tol, ab(re-rnd) >= tol))
    eng.fact(z3.Implies(im == 0, MD.uf('abs')(v) == ab(re)))
    e = z3.ToInt(rnd)
    return z3.If(x != 0, z3.IntVal(-1), z3.If(b == 0, z3.IntVal(0), z3.If(z3.Not(isint), z3.IntVal(-1), z3.If(e == 0, z3.If(b < 0, z3.IntVal(-9), z3.IntVal(0)), z3.If(z3.Or(e < 0, b < 0), z3.IntVal(-1), b*e)))))
def deg_spec(eng, th, o, c, key, lab):
    """formal degree of the node in key (a variable term or G); -9: outside the statement"""
    d = lambda n: DEG(th.term_of(eng, o.cell(n).get()), key)
    if c in ('Integer', 'Float', 'Rational', 'Pi', 'E', 'Differential'): return z3.IntVal(0)
    if c in ('NegateOperator',): return norm(d('operand_'))
    if c in ('Function', 'Jacobian'): return norm(d('entry_node_'))
    if c == 'IntegerPowerOperator':
        b, e = norm(d('operand_')), o.f['exponent_'].v
        return z3.If(b < 0, z3.If(e == 0, z3.IntVal(-9), z3.IntVal(-1)), z3.If(b == 0, z3.IntVal(0), z3.If(e < 0, z3.IntVal(-1), e*b)))
    if c == 'PowerOperator': return pow_spec(eng, th, o, norm(d('base_')), norm(d('exponent_')))
    if c in ('SumOperator', 'MultOperator'):
        R = agg_rec(eng, th, o, c, key); N = o.ghost['n']
        th.recs.append(R); th.rec = (R, norm); absorbing(eng, th, R, lambda x: x == -1, N)
        return R.at(eng, N)
    if c in TRANSN: return z3.If(d('operand_') == 0, z3.IntVal(0), z3.IntVal(-1))
    raise Unsupported('degree of '+c)
def goal(res, spec): return z3.Or(spec == -9, norm(toz(res, Int)) == spec)
def deg_group(short, kind):
    cls = PFX+short; c = short.split('::')[-1]
    isvec = lambda f: len(f['params']) == 1 and 'vector' in f['params'][0]['t']
    def run(eng):
        th = eng.theory; th.V = None; th.D = NULLN
        if c == 'Variable':
            o = Obj(eng, cls); o.term = z3.Const('self', Node); eng.fact(o.term != NULLN)
        else: o = make_node(eng, th, short)
        if c == 'MultOperator' and kind != 'group':
            i = z3.Const('di', Int)      # products containing differentials have a convention of their own, outside the statement
            ops = o.f['operands_'].v; el0 = ops.elem
            def el(k):
                p = el0(k); eng.fact(CLS(p.target.term) != CODE[PFX+'Differential']); return p
            ops.elem = el
        if c == 'PowerOperator': eng.fact(EV(th.term_of(eng, o.f['exponent_'].v), NULLN) == EV(th.term_of(eng, o.f['exponent_'].v), NULLN))
        lab = '%s.%s' % (short, {'one': 'Degree(variable)', 'group': 'Degree(group)', 'multi': 'MultiDegree(group)'}[kind])
        if kind == 'one':
            v = z3.Const('v', Node); arg = Cell(eng, Ptr(ANode(v, PFX+'Variable')), 'v')
            f = method(eng.db, cls, 'Degree', lambda f: not isvec(f) and len(f['params']) == 1)
            spec = z3.If(z3.Or(v == NULLN, v == o.term), z3.IntVal(1), z3.IntVal(0)) if c == 'Variable' else deg_spec(eng, th, o, c, v, lab)
        else:
            arg = group_arg(eng, th)
            f = method(eng.db, cls, 'Degree' if kind == 'group' else 'MultiDegree', isvec)
        if kind == 'group':
            if c == 'Variable':
                R = Rec('IN', Int, 0, lambda k, a: z3.If(z3.Or(a == 1, th.gf(k) == o.term), z3.IntVal(1), z3.IntVal(0))); R.base(eng); R.depth = None; th.recs.append(R)
                absorbing(eng, th, R, lambda x: x == 1, th.N); spec = R.at(eng, th.N)
            elif c in TRANSN:
                # a function of a non-constant is not polynomial; constant in the group = constant in each variable of the group
                # (lemma of formal degrees, by induction on the tree: DEG(x,G) = 0 iff DEG(x,g_i) = 0 for all i)
                x = th.term_of(eng, o.f['operand_'].v)
                R = Rec('NONC', Int, 0, lambda k, a: z3.If(z3.Or(a != 0, DEG(x, th.gf(k)) != 0), z3.IntVal(-1), z3.IntVal(0))); R.base(eng); R.depth = None
                th.recs.append(R); th.rec = (R, norm)
                eng.fact((DEG(x, G) == 0) == (R.at(eng, th.N) == 0)); spec = z3.If(DEG(x, G) == 0, z3.IntVal(0), z3.IntVal(-1))
                # MultiDegree is used through its contract (proved as a group of its own)
                def mdc(eng2, f2, this, e):
                    fn = eng.freshfn('mdeg', Int, Int)
                    def el(i):
                        i = toz(i, Int); t = fn(i); eng.fact(norm(t) == z3.If(DEG(x, th.gf(i)) == 0, z3.IntVal(0), z3.IntVal(-1))); return t
                    return Seq(eng, 'int', th.N, el, sid=fn)
                for cc in eng.db.bases(cls): eng.contract_calls[cc+'::MultiDegree'] = mdc
            else: spec = deg_spec(eng, th, o, c, G, lab)
        if kind == 'multi':
            j = WJ; eng.fact(z3.And(j >= 0, j < th.N))
            if c == 'Variable': spec = z3.If(th.gf(j) == o.term, z3.IntVal(1), z3.IntVal(0)); th.especs = lambda ix: [('spec', z3.If(th.gf(ix) == o.term, z3.IntVal(1), z3.IntVal(0)))]
            elif c in ('SumOperator', 'MultOperator'): spec = deg_spec(eng, th, o, c, th.gf(j), lab)
            else:
                # these classes compute it from their own Degree (contract, proved separately)
                spec = deg_spec(eng, th, o, c, th.gf(j), lab)
                OWN = z3.Function('OWNDEG', Node, Int)
                eng.fact(goal(OWN(th.gf(j)), spec)); th.especs = lambda ix: [('own', OWN(th.gf(ix)))]
                def dc(eng2, f2, this, e):
                    if f2['n'] != 'Degree' or 'vector' in f2['pt'][0] or this is None or this.get() is not o: return NotImplemented
                    return OWN(th.argnode(eng, e['args'], 0))
                for cc in eng.db.bases(cls): eng.contract_calls[cc+'::Degree'] = dc
        try: r = eng.call_fn(f, o, [arg])
        except (ThrowEx, AbortEx): return
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        if kind == 'multi':
            eng.prove(lab+': one entry per variable of the group', toz(r.size(), Int) == th.N)
            x = eng.peek(r, j)
            if x is None: raise Unsupported('entries of the result')
            eng.prove(lab+': entry j is the degree in variable j', goal(x, spec))
        else: eng.prove(lab+': result is the formal degree, negative exactly if not polynomial', goal(r, spec))
    def setup(eng): setup_nodes(eng)
    return Group('degree/%s/%s' % (short, kind), [cls+'::'+('MultiDegree' if kind == 'multi' else 'Degree')], run, DegTheory, setup=setup)
def poly_group(kind):
    def run(eng):
        th = eng.theory; th.V = None; th.D = NULLN
        isvec = lambda f: 'vector' in f['params'][0]['t']
        f = find1(eng.db, PFX+'Node::IsPolynomial', lambda f: isvec(f) == (kind == 'group'))
        o = Obj(eng, PFX+'Node'); D = eng.fresh('deg', Int)
        arg = group_arg(eng, th) if kind == 'group' else Cell(eng, Ptr(ANode(z3.Const('v', Node), PFX+'Variable')))
        def dc(eng2, f2, this, e):
            if ('vector' in f2['pt'][0]) != (kind == 'group'): return NotImplemented
            if kind == 'group':
                if eng.rv(e['args'][0]) is not th.vgroup.get(): raise Unsupported('another group')
            elif not th.argnode(eng, e['args'], 0).eq(z3.Const('v', Node)): raise Unsupported('another variable')
            return D
        eng.contract_calls[PFX+'Node::Degree'] = dc
        r = eng.call_fn(f, o, [arg])
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        eng.prove('Node.IsPolynomial(%s): true exactly if the degree is not negative' % kind, toz(r, BoolS) == (D >= 0))
    return Group('degree/Node.IsPolynomial/'+kind, [PFX+'Node::IsPolynomial'], run, DegTheory, setup=setup_nodes)
DEGCL = ['Variable', 'SumOperator', 'MultOperator', 'NegateOperator', 'PowerOperator', 'IntegerPowerOperator', 'SqrtOperator', 'ExpOperator', 'LogOperator', 'SinOperator', 'ArcSinOperator',
         'CosOperator', 'ArcCosOperator', 'TanOperator', 'ArcTanOperator', 'Function', 'Jacobian', 'Integer', 'Float', 'Rational', 'special_number::Pi', 'special_number::E', 'Differential']
def degree_groups(): return [deg_group(c, k) for c in DEGCL for k in ('one', 'group', 'multi')] + [poly_group('one'), poly_group('group')]
