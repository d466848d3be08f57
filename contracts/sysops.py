"""P09: sums, multiples, concatenations and copies of systems, function by function."""
from .system import *
from .system import S, SysTheory, nodes, method, find1
NVAL = z3.Function('value_of_node', Node, Real); SUM, PROD = z3.Function('sum', Node, Node, Node), z3.Function('product', Node, Node, Node)
FT_P, VT_P, NT_P = ['std::shared_ptr<bertini::node::%s>' % x for x in ('Function', 'Variable', 'Node')]
class OpsTheory(SysTheory):
    def reset(s, eng):
        super().reset(eng); a, b = z3.Consts('a b', Node)
        for W in (WRAP, ENTRY): eng.fact(z3.ForAll([a], z3.And(NVAL(W(a)) == NVAL(a), W(a) != NULLN), patterns=[W(a)]))
        eng.fact(z3.ForAll([a, b], z3.And(NVAL(SUM(a, b)) == NVAL(a)+NVAL(b), SUM(a, b) != NULLN), patterns=[SUM(a, b)])); eng.fact(z3.ForAll([a, b], z3.And(NVAL(PROD(a, b)) == NVAL(a)*NVAL(b), PROD(a, b) != NULLN), patterns=[PROD(a, b)]))
        for x in ('1', '2'):
            n, q = z3.Int('functions'+x), z3.Int('q'); eng.fact(z3.And(n >= 0, n < 2**31))
            for k in COUNTS: eng.fact(z3.And(z3.Int(k+x) >= 0, z3.Int(k+x) < 2**31))
            F = fun(x); eng.fact(z3.ForAll([q], F(q) != NULLN, patterns=[F(q)])); eng.fact(z3.Implies(z3.Not(z3.Bool('patched'+x)), z3.Int('patches'+x) == 0))
def fun(x): return z3.Function('function'+x, Int, Node)
COUNTS = ('patches', 'natural_variables', 'hom_variables', 'groups', 'hom_groups')
LISTS = dict(ungrouped_variables_=VT_P, implicit_parameters_=VT_P, jacobian_='std::shared_ptr<bertini::node::Jacobian>', space_derivatives_=NT_P, time_derivatives_=NT_P, variable_ordering_=VT_P, constant_subfunctions_=FT_P, subfunctions_=FT_P, explicit_parameters_=FT_P)
FLAGS = ('have_path_variable_', 'is_differentiated_', 'assume_uniform_precision_', 'auto_simplify_', 'have_ordering_')
def sysx(eng, x):
    """a system all of whose fields are arbitrary, with the suffix x in their names"""
    o = Obj(eng, S); c = lambda n, v: o.f.__setitem__(n, Cell(eng, v, n+x)); I_ = lambda n: z3.Int(n+x)
    c('functions_', nodes(eng, fun(x), I_('functions'), FT_P)); c('is_patched_', z3.Bool('patched'+x))
    for n, t in LISTS.items(): c(n, nodes(eng, z3.Function(n+x, Int, Node), I_('length_'+n), t)); eng.fact(I_('length_'+n) >= 0)
    for n in FLAGS: c(n, z3.Bool(n+x))
    for n in ('eval_method_', 'deriv_method_', 'precision_'): c(n, I_(n))
    c('homogenizing_variables_', nodes(eng, z3.Function('homogenizing'+x, Int, Node), I_('hom_variables'), VT_P)); c('path_variable_', Ptr(ANode(z3.Const('path_variable'+x, Node)))); eng.fact(z3.Const('path_variable'+x, Node) != NULLN)
    VV = 'std::vector<std::shared_ptr<bertini::node::Variable>>'
    for n, m in (('variable_groups_', 'groups'), ('hom_variable_groups_', 'hom_groups')):
        F, L = z3.Function(n+x, Int, Int, Node), z3.Function('length_of_'+n+x, Int, Int); c(n, Seq(eng, VV, I_(m), lambda g, F=F, L=L: Seq(eng, VT_P, L(I(g)), lambda i: Ptr(ANode(F(I(g), I(i))))), sid=F))
    K = z3.Function('kind'+x, Int, Int); c('time_order_of_variable_groups_', Seq(eng, 'bertini::VariableGroupType', I_('kinds'), lambda i: K(I(i)), sid=K)); eng.fact(I_('kinds') >= 0)
    ft = {r['name']: r['t'] for r in eng.db.record(S)['fields']}; tp = Tup.__new__(Tup); tp.types = targs_of(strip_t(ft['current_variable_values_'])); X_ = z3.Function('current'+x, Int, Real)
    tp.cells = [Cell(eng, Mat(I_('values'), 1, lambda i, j: X_(I(i))), 'current_values'+x) for t in tp.types]; c('current_variable_values_', tp)
    p = Obj(eng, 'bertini::Patch'); p.ghost['tag'] = 'patch'+x; c('patch_', p); p = Obj(eng, 'bertini::StraightLineProgram'); p.ghost['tag'] = 'slp'+x; c('slp_', p)
    o.ghost['x'] = x; return o
def obj(v): return v.get() if isinstance(v, (Cell, FnCell, Val)) else v
def ops_lib(eng, want=()):
    C = eng.contract_calls; th = eng.theory
    C['bertini::Patch::NumVariableGroups'] = lambda eng, f, this, e: z3.Int('patches'+obj(this).ghost['tag'][5:])
    def natural(eng, f, this, e): return z3.Int('natural_variables'+obj(this).ghost['x'])
    C[S+'::NumNaturalVariables'] = natural
    def ordering(eng, f, this, e): x = obj(this).ghost['x']; return nodes(eng, z3.Function('variable_in_order'+x, Int, Node), z3.Int('natural_variables'+x)+z3.Int('hom_variables'+x), VT_P)
    C[S+'::VariableOrdering'] = ordering
    def assign(eng, f, this, e): a, b = obj(this), obj(eng.lv(e['args'][0])); a.ghost['tag'] = b.ghost['tag']; return this
    for k in ('bertini::Patch::operator=', 'bertini::StraightLineProgram::operator='): C[k] = assign
    def ne(eng, f, this, e):
        a, b = obj(this), obj(eng.lv(e['args'][0])); ts = sorted((a.ghost['tag'], b.ghost['tag'])); return z3.BoolVal(False) if ts[0] == ts[1] else z3.Bool('patches_differ')
    C['bertini::Patch::operator!='] = ne
    C['bertini::Patch::operator=='] = lambda eng, f, this, e: z3.Not(ne(eng, f, this, e))
    def make(eng, f, this, e): return Ptr(ANode(WRAP(th.term_of(eng, eng.rv(e['args'][0])))))
    C['bertini::node::Function::Make'] = make
    def bin_(G):
        def go(eng, f, this, e):
            a = [eng.rv(x) for x in e['args']]
            return Ptr(ANode(G(*[th.term_of(eng, x) for x in a])))
        return go
    C['bertini::node::operator+'] = bin_(SUM); C['bertini::node::operator*'] = bin_(PROD)
NF1, NF2 = z3.Int('functions1'), z3.Int('functions2'); F1, F2 = fun('1'), fun('2'); P1, P2 = z3.Bool('patched1'), z3.Bool('patched2')
def val(eng, o, i):
    fs = o.f['functions_'].get(); return NVAL(eng.theory.term_of(eng, fs.elem(i)))
def same(eng, name, o, x, skip=()):
    """the fields of o not in skip are those of system x"""
    i, g = z3.Int('place'), z3.Int('group'); eng.assume(z3.And(i >= 0, g >= 0)); th = eng.theory; ref = sysx(eng, x)
    for n in ref.f:
        if n in skip: continue
        a, b = o.f[n].get() if n in o.f else None, ref.f[n].get()
        if isinstance(b, Seq):
            def eqs(u, v, d=0):
                if not isinstance(u, Seq): return u == v if is_z(v) else th.term_of(eng, u) == th.term_of(eng, v)
                q = (g, i)[1 if d else 0] if isinstance(v.elem(g), Seq) or d else i
                return z3.And(I(u.size()) == I(v.size()), z3.Implies(q < I(v.size()), eqs(u.elem(q), v.elem(q), d+1)))
            ok = eqs(a, b) if isinstance(a, Seq) else z3.BoolVal(False)
        elif isinstance(b, Tup): ok = z3.And(*[z3.And(I(u.get().rows) == I(v.get().rows), z3.Implies(i < I(v.get().rows), R(u.get().elem(i, 0)) == R(v.get().elem(i, 0)))) for u, v in zip(a.cells, b.cells)]) if isinstance(a, Tup) and len(a.cells) == len(b.cells) else z3.BoolVal(False)
        elif isinstance(b, Obj): ok = z3.BoolVal(isinstance(a, Obj) and a.ghost.get('tag') == b.ghost['tag'])
        elif isinstance(b, Ptr): ok = th.term_of(eng, a) == th.term_of(eng, b) if isinstance(a, Ptr) else z3.BoolVal(False)
        else: ok = toz(a) == b if a is not None else z3.BoolVal(False)
        eng.prove('%s: %s' % (name, n.rstrip('_')), ok)
CHANGED = ('functions_', 'is_differentiated_', 'patch_', 'is_patched_')
def incompatible():
    c = lambda n, x: z3.Int(n+x); tot = lambda x: z3.Int('functions'+x)+z3.If(z3.Bool('patched'+x), c('patches', x), 0)
    v = lambda x: c('natural_variables', x)+c('hom_variables', x)
    return z3.Or(tot('1') != tot('2'), v('1') != v('2'), c('hom_variables', '1') != c('hom_variables', '2'), c('groups', '1')+c('hom_groups', '1') != c('groups', '2')+c('hom_groups', '2'), z3.And(P1, P2, z3.Bool('patches_differ')))
def patched_after(eng, o):
    eng.prove('patched if one of the two was', toz(o.f['is_patched_'].get()) == z3.Or(P1, P2))
    t = o.f['patch_'].get().ghost['tag']; eng.prove('with the patch of the one that was', z3.If(P1, z3.Or(t == 'patch1', z3.And(P2, t == 'patch2')), z3.Implies(P2, t == 'patch2')) if False else z3.And(z3.Implies(z3.And(P1, z3.Not(P2)), z3.BoolVal(t == 'patch1')), z3.Implies(z3.And(P2, z3.Not(P1)), z3.BoolVal(t == 'patch2'))))
def elems_sum(eng, el, el0, ix, k, outer):
    yield 'done', z3.Implies(z3.And(ix >= 0, ix < k), NVAL(el) == NVAL(F1(ix))+NVAL(F2(ix))); yield 'rest', z3.Implies(ix >= k, el == F1(ix))
FACTOR = z3.Const('factor', Node)
def elems_mul(eng, el, el0, ix, k, outer):
    yield 'done', z3.Implies(z3.And(ix >= 0, ix < k), NVAL(el) == NVAL(FACTOR)*NVAL(F1(ix))); yield 'rest', z3.Implies(ix >= k, el == F1(ix))
def sysops_groups():
    out = []
    def add(name, fs, run, **k): out.append(Group(name, fs, run, OpsTheory, setup=ops_lib, **k))
    def result(eng, r):
        r = obj(r); return r if isinstance(r, Obj) else None
    def addition(which):
        def run(eng):
            th = eng.theory; a, b = sysx(eng, '1'), sysx(eng, '2'); th.elems = elems_sum; th.invs = lambda eng, k, outer: [('k<=n', k <= NF1)]
            f = find1(eng.db, S+'::operator+=') if which == '+=' else find1(eng.db, 'bertini::operator+', lambda f: 'System' in f['params'][0]['t'])
            if which == '+':
                def summed(eng, f, this, e):      # contract of operator+=, proved on its own
                    o, r = obj(this), obj(eng.lv(e['args'][0])); ok = o.ghost['x'] == '1' and r is b and not o.ghost.get('done'); o.ghost['done'] = True; o.ghost['sum'] = ok; return o
                eng.contract_calls[S+'::operator+='] = summed; eng.copy_contracts.add(S); r = result(eng, eng.call_fn(f, None, [Cell(eng, a, 'lhs'), Cell(eng, b, 'rhs')])); eng.prove('the left operand with the right one added', z3.BoolVal(bool(r is not None and r.ghost.get('sum')))); return
            try: r = eng.call_fn(f, a, [Cell(eng, b, 'rhs')]) if which == '+=' else eng.call_fn(f, None, [Cell(eng, a, 'lhs'), Cell(eng, b, 'rhs')])
            except ThrowEx: eng.prove('rejected only if the systems do not fit together', incompatible()); return
            eng.prove('accepted only if the systems fit together', z3.Not(incompatible())); r = result(eng, r)
            if r is None: raise Unsupported('result')
            eng.assume(z3.And(i0 >= 0, i0 < NF1))
            eng.prove('as many functions as before', I(r.f['functions_'].get().size()) == NF1)
            # a patched and an unpatched system with equal totals differ in their numbers of functions; the sum is of equally many functions
            eng.prove('function i is the sum of the functions i', z3.Implies(NF1 == NF2, val(eng, r, i0) == NVAL(F1(i0))+NVAL(F2(i0))))
            eng.prove('its derivatives are taken anew', toz(r.f['is_differentiated_'].get()) == False); patched_after(eng, r)
            same(eng, 'kept', r, '1', CHANGED); same(eng, 'right operand kept', b, '2')
        add('operator'+which, [S+'::operator+=' if which == '+=' else 'bertini::operator+'], run)
    addition('+='); addition('+')
    def scaling(which):
        def run(eng):
            th = eng.theory; a = sysx(eng, '1'); th.elems = elems_mul; th.invs = lambda eng, k, outer: [('k<=n', k <= NF1)]; eng.fact(FACTOR != NULLN)
            n = Cell(eng, Ptr(ANode(FACTOR)), 'factor')
            if which != '*=':
                def scaled(eng, f, this, e):      # contract of operator*=, proved on its own
                    o = obj(this); ok = o.ghost['x'] == '1' and th.term_of(eng, eng.rv(e['args'][0])).eq(FACTOR) and not o.ghost.get('done'); o.ghost['done'] = True; o.ghost['scaled'] = ok; return o
                eng.contract_calls[S+'::operator*='] = scaled; eng.copy_contracts.add(S)
            if which == '*=': r = eng.call_fn(find1(eng.db, S+'::operator*='), a, [n])
            elif which == 'S*n': r = eng.call_fn(find1(eng.db, 'bertini::operator*', lambda f: 'System' in f['params'][0]['t']), None, [Cell(eng, a, 's'), n])
            else: r = eng.call_fn(find1(eng.db, 'bertini::operator*', lambda f: 'System' in f['params'][1]['t']), None, [n, Cell(eng, a, 's')])
            r = result(eng, r)
            if which != '*=': eng.prove('the system scaled by the factor', z3.BoolVal(bool(r is not None and r.ghost.get('scaled')))); (eng.prove('the operand is kept', z3.BoolVal(not a.ghost.get('done'))) if which == 'n*S' else None); return
            eng.assume(z3.And(i0 >= 0, i0 < NF1))
            eng.prove('as many functions as before', I(r.f['functions_'].get().size()) == NF1)
            eng.prove('function i is the factor times function i', val(eng, r, i0) == NVAL(FACTOR)*NVAL(F1(i0)))
            eng.prove('its derivatives are taken anew', toz(r.f['is_differentiated_'].get()) == False); same(eng, 'kept', r, '1', ('functions_', 'is_differentiated_'))
            if which == 'n*S': same(eng, 'operand kept', a, '1')
        add('operator'+which, [S+'::operator*=' if which == '*=' else 'bertini::operator*'], run)
    for w in ('*=', 'S*n', 'n*S'): scaling(w)
    def run_c(eng):
        eng.copy_contracts |= {S, 'bertini::Patch'}; th = eng.theory; a, b = sysx(eng, '1'), sysx(eng, '2'); th.invs = lambda eng, k, outer: [('k<=n', k <= NF2)]
        def elems(eng, el, el0, ix, k, outer):
            yield 'first', z3.Implies(z3.And(ix >= 0, ix < NF1), el == F1(ix)); yield 'second', z3.Implies(z3.And(ix >= NF1, ix < NF1+k), NVAL(el) == NVAL(F2(ix-NF1)))
        q = z3.Int('q'); V1, V2 = [z3.Function('variable_in_order'+x, Int, Node) for x in '12']; th.elems = elems; v = lambda x: z3.Int('natural_variables'+x)+z3.Int('hom_variables'+x)
        bad = z3.Or(v('1') != v('2'), z3.Exists([q], z3.And(q >= 0, q < v('1'), V1(q) != V2(q))), z3.And(P1, P2, z3.Bool('patches_differ')))
        try: r = eng.call_fn(find1(eng.db, 'bertini::Concatenate'), None, [Cell(eng, a, 'sys1'), Cell(eng, b, 'sys2')])
        except ThrowEx: eng.prove('rejected only if the systems do not fit together', bad); return
        eng.prove('accepted only if the systems fit together', z3.Not(bad)); r = result(eng, r)
        eng.prove('the functions of both', I(r.f['functions_'].get().size()) == NF1+NF2); eng.assume(z3.And(i0 >= 0, i0 < NF1)); eng.assume(z3.And(j0 >= 0, j0 < NF2))
        eng.prove('first those of the first', val(eng, r, i0) == NVAL(F1(i0))); eng.prove('then those of the second', val(eng, r, NF1+j0) == NVAL(F2(j0)))
        eng.prove('its derivatives are taken anew', z3.Implies(NF2 > 0, toz(r.f['is_differentiated_'].get()) == False)); patched_after(eng, r)
        same(eng, 'kept', r, '1', CHANGED); same(eng, 'right operand kept', b, '2')
    add('Concatenate', ['bertini::Concatenate'], run_c)
    def run_copy(eng):
        a, b = Obj(eng, S), sysx(eng, '2'); p = Obj(eng, 'bertini::Patch'); p.ghost['tag'] = 'patch'; a.f['patch_'] = Cell(eng, p); p = Obj(eng, 'bertini::StraightLineProgram'); p.ghost['tag'] = 'slp'; a.f['slp_'] = Cell(eng, p)
        f = find1(eng.db, S+'::System', lambda f: len(f['params']) == 1 and f['params'][0]['t'].startswith('const bertini::System'))
        eng.copy_contracts.clear(); eng.call_fn(f, a, [Cell(eng, b, 'other')]); same(eng, 'copied', a, '2'); same(eng, 'original kept', b, '2')
    add('System(System const&)', [S+'::System'], run_copy)
    def run_assign(eng):
        a, b = sysx(eng, '1'), sysx(eng, '2'); eng.call_fn(find1(eng.db, S+'::operator=', lambda f: 'const' in f['params'][0]['t']), a, [Cell(eng, b, 'other')]); same(eng, 'copied', a, '2'); same(eng, 'original kept', b, '2')
    add('operator=', [S+'::operator='], run_assign)
    def run_swap(eng):
        a, b = sysx(eng, '1'), sysx(eng, '2'); eng.call_fn(find1(eng.db, 'bertini::swap'), None, [Cell(eng, a, 'a'), Cell(eng, b, 'b')]); same(eng, 'first', a, '2'); same(eng, 'second', b, '1')
    add('swap', ['bertini::swap'], run_swap)
    def adding(kind):
        def run(eng):
            a = sysx(eng, '1'); th = eng.theory; n = z3.Const('added', Node); eng.fact(n != NULLN); m = z3.Int('added_functions'); A = z3.Function('added_function', Int, Node); eng.assume(m >= 0)
            if kind == 'function': eng.call_fn(find1(eng.db, S+'::AddFunction', lambda f: len(f['params']) == 1), a, [Cell(eng, Ptr(ANode(n)), 'F')])
            elif kind == 'node': eng.call_fn(find1(eng.db, S+'::AddFunction', lambda f: len(f['params']) == 2), a, [Cell(eng, Ptr(ANode(n)), 'N'), Cell(eng, Opaque('str'), 'name')])
            else: eng.call_fn(find1(eng.db, S+'::AddFunctions'), a, [Cell(eng, nodes(eng, A, m, FT_P), 'v')])
            k = m if kind == 'list' else z3.IntVal(1); eng.prove('one more function for each', I(a.f['functions_'].get().size()) == NF1+k); eng.assume(z3.And(i0 >= 0, i0 < NF1)); eng.assume(z3.And(j0 >= 0, j0 < k))
            eng.prove('those before keep their places', val(eng, a, i0) == NVAL(F1(i0))); eng.prove('the new ones come after', val(eng, a, NF1+j0) == (NVAL(A(j0)) if kind == 'list' else NVAL(n)))
            eng.prove('derivatives are taken anew', toz(a.f['is_differentiated_'].get()) == False); same(eng, 'kept', a, '1', ('functions_', 'is_differentiated_'))
        add('AddFunction '+kind, [S+'::AddFunctions' if kind == 'list' else S+'::AddFunction'], run)
    for k in ('function', 'node', 'list'): adding(k)
    def run_cp(eng):
        a, b = sysx(eng, '1'), sysx(eng, '2')
        try: eng.call_fn(find1(eng.db, S+'::CopyPatches'), a, [Cell(eng, b, 'other')])
        except ThrowEx: eng.prove('rejected only if there is no patch', z3.Not(P2)); return
        eng.prove('patched', toz(a.f['is_patched_'].get()) == True); eng.prove('with the other patch', z3.BoolVal(a.f['patch_'].get().ghost['tag'] == 'patch2')); same(eng, 'kept', a, '1', ('patch_', 'is_patched_'))
    add('CopyPatches', [S+'::CopyPatches'], run_cp)
    return out
