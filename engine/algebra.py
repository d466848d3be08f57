"""Field-identity back end: decides equalities of rational functions over uninterpreted atoms, modulo the
ground equations of the path (used as oriented rewrite rules).  Denominators are assumed non-zero."""
import z3, sympy
from sympy import Rational, Symbol, Integer

def has_mul(c):
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x): st += x.children(); continue
        if z3.is_mul(x) or z3.is_div(x) or x.decl().kind() == z3.Z3_OP_POWER: return True
        st += x.children()
    return False
def has_quantifier(c):
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x): return True
        st += x.children()
    return False
def occurs(a, t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.eq(a): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
    return False
def size(t):
    n = 0; st = [t]
    while st:
        x = st.pop(); n += 1; st += x.children()
        if n > 2000: return n
    return n
def atoms_like(t):
    k = t.decl().kind()
    return k == z3.Z3_OP_UNINTERPRETED or (k == z3.Z3_OP_TO_REAL and t.children()[0].decl().kind() == z3.Z3_OP_UNINTERPRETED)
def flat(c):
    while z3.is_not(c) and z3.is_not(c.children()[0]): c = c.children()[0].children()[0]
    if z3.is_not(c) and z3.is_or(c.children()[0]):
        for x in c.children()[0].children(): yield from flat(z3.Not(x))
    elif z3.is_and(c):
        for x in c.children(): yield from flat(x)
    else: yield c
def is_numeral(t): return z3.is_rational_value(t) or z3.is_int_value(t)
class Canon:
    """ground congruence closure of the equations of the path, used as a rewriting system"""
    def __init__(s, eqs):
        s.parent = {}; s.term = {}; s.memo = {}
        eqs = [tuple(e.children()) for e in eqs]
        for _ in range(8):
            changed = False
            for l, r in eqs:
                l2, r2 = s.canon(l), s.canon(r)
                if l2.eq(r2): continue
                if s.orient(l2, r2): changed = True; s.memo = {}
            if not changed: break
    def orient(s, l, r):
        # prefer eliminating function applications / larger atoms; numerals and compound terms are representatives
        def rank(t):
            if is_numeral(t): return (0, 0)
            if atoms_like(t): return (1 if not t.children() else 2, size(t))
            return (-1, 0)     # compound: cannot be a left-hand side
        a, b = (l, r)
        cand = []
        if atoms_like(l) and not is_numeral(l) and not occurs(l, r): cand.append((l, r))
        if atoms_like(r) and not is_numeral(r) and not occurs(r, l): cand.append((r, l))
        if not cand: return False
        cand.sort(key=lambda p: (is_numeral(p[1]), rank(p[0])), reverse=True)
        x, y = cand[0]
        s.parent[x.get_id()] = y; s.term[x.get_id()] = x
        return True
    def canon(s, t, depth=0):
        i = t.get_id()
        if i in s.memo: return s.memo[i][1]
        if depth > 60: return t
        ch = t.children()
        n = t
        if ch:
            nc = [s.canon(x, depth+1) for x in ch]
            if any(not x.eq(y) for x, y in zip(ch, nc)): n = t.decl()(*nc)
            if not atoms_like(n): n = z3.simplify(n)
            else: pass
        k = 0
        while n.get_id() in s.parent and k < 20:
            s.keep = getattr(s, 'keep', []); s.keep.append(n)
            n = s.canon(s.parent[n.get_id()], depth+1); k += 1
        s.memo[i] = (t, n)
        return n
def prove(c, facts):
    if z3.is_and(c): return all(prove(x, facts) for x in c.children())
    if not z3.is_eq(c): return None
    a, b = c.children()
    if a.sort() == z3.BoolSort():       # two comparisons agree if the differences of their sides agree
        x, y = cmp_diff(a), cmp_diff(b)
        if x is None or y is None or x[0] != y[0]: return None
        a, b = x[1], y[1]
        if a.sort() != b.sort(): return None
    if a.sort() != z3.RealSort() and a.sort() != z3.IntSort(): return None
    if has_quantifier(c): return None
    fl = [f for x in facts for f in flat(x) if not has_quantifier(f)]
    return go(a, b, fl, None, 0)
def cmp_diff(c):
    # normal form: (strict?, d) for d > 0 or d >= 0
    k = c.decl().kind(); neg = False
    if z3.is_not(c): neg = True; c = c.children()[0]; k = c.decl().kind()
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE): return None
    l, r = c.children(); strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    d = l-r if k in (z3.Z3_OP_GT, z3.Z3_OP_GE) else r-l
    return (not strict, -d) if neg else (strict, d)
def expand(fl):
    """unit propagation of boolean facts through implications and conditional equations"""
    lits = {}
    out = list(fl)
    for f in out:
        if z3.is_not(f): lits[f.children()[0].get_id()] = (f.children()[0], False)
        else: lits[f.get_id()] = (f, True)
    res = []
    for f in out:
        if f.decl().kind() == z3.Z3_OP_IMPLIES:
            g, h = f.children(); g = z3.simplify(g)
            if g.get_id() in lits and lits[g.get_id()][1] or z3.is_true(g): res += list(flat(h)); continue
        subs = []
        for t in ifconds(f):
            if t.get_id() in lits and not t.eq(f): subs.append((t, z3.BoolVal(lits[t.get_id()][1])))
        if subs: f = z3.simplify(z3.substitute(f, *subs))
        res += list(flat(f))
    return res
def ifconds(t):
    st = [t]; seen = set(); out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE: out.append(x.children()[0])
        st += x.children()
    return out
def find_if(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE: return x.children()[0]
        st += x.children()
    return None
def go(a, b, fl, norm, depth):
    fl = expand(fl)
    cc = Canon([f for f in fl if z3.is_eq(f) and f.children()[0].sort() != z3.BoolSort()])
    a = cc.canon(z3.simplify(a)); b = cc.canon(z3.simplify(b))
    if size(a) > 4000 or size(b) > 4000: return None
    if a.eq(b): return True
    c = find_if(a); c = c if c is not None else find_if(b)
    if c is not None:
        if depth > 6: return None
        for v in (True, False):
            cc = c if v else z3.Not(c)
            s = z3.Solver(); s.set('timeout', 500)
            for f in fl:
                if not has_mul(f): s.add(f)
            s.add(cc)
            if s.check() == z3.unsat: continue
            sub = lambda t: z3.substitute(t, (c, z3.BoolVal(v)))
            if not go(sub(a), sub(b), [sub(f) for f in fl] + [cc], norm, depth+1): return None
        return True
    env = {}
    ea = conv(a, env); eb = conv(b, env)
    d = sympy.together(ea - eb)
    n, _ = sympy.fraction(d)
    return sympy.expand(n) == 0
def conv(t, env):
    k = t.decl().kind()
    if z3.is_rational_value(t) or z3.is_int_value(t):
        if z3.is_int_value(t): return Integer(t.as_long())
        return Rational(t.numerator_as_long(), t.denominator_as_long())
    if k == z3.Z3_OP_ADD: return sum((conv(x, env) for x in t.children()), Integer(0))
    if k == z3.Z3_OP_MUL:
        r = Integer(1)
        for x in t.children(): r = r*conv(x, env)
        return r
    if k == z3.Z3_OP_SUB:
        c = [conv(x, env) for x in t.children()]; r = c[0]
        for x in c[1:]: r = r - x
        return r
    if k == z3.Z3_OP_UMINUS: return -conv(t.children()[0], env)
    if k == z3.Z3_OP_DIV: return conv(t.children()[0], env)/conv(t.children()[1], env)
    if k == z3.Z3_OP_TO_REAL: return conv(t.children()[0], env)
    if k == z3.Z3_OP_POWER:
        b, e = t.children()
        if z3.is_rational_value(e) and e.denominator_as_long() == 1 and abs(e.numerator_as_long()) < 50: return conv(b, env)**e.numerator_as_long()
    # canonical key: decl + canonical args
    ch = t.children()
    key = t.decl().name() + '(' + ','.join(str(sympy.srepr(sympy.cancel(conv(x, env)))) if x.sort() in (z3.RealSort(), z3.IntSort()) else x.sexpr() for x in ch) + ')' if ch else t.sexpr()
    if key not in env: env[key] = Symbol('a%d' % len(env))
    return env[key]
