"""Theory of index arithmetic on vectors and matrices: entries are functions of their indices; sums over an index are ghost
recursive functions; invariants about all entries are proved at arbitrary indices and instantiated where an entry is read."""
import z3
from .symex import *
from .nodetheory import NodeTheory, Rec
R = lambda x: toz(x, Real)
I = lambda x: toz(x, Int)
AGREES = z3.Function('agrees', Int, Real, Real, z3.BoolSort())     # agrees(p, x, v): v has the value x to at least p digits
ROUND = z3.Function('round', Int, Real, Real)
class ArrTheory(NodeTheory):
    """mats(eng, el, el0, (i,j), k, outer), rows(...), smats(...): yield (tag, formula): candidate facts about every entry
    rec_at(eng, outer): ghost recursions for a loop inside the loops with iteration counts outer"""
    def reset(s, eng):
        super().reset(eng); s.mats = s.rows = s.smats = lambda *a: (); s.rec_at = lambda eng, outer: []; s.dots = []; s.dotcache = {}; s.invs = None; s.prec = Cell(eng, eng.sym_value('unsigned int', 'default_precision'), 'default_precision'); s.own = []
    def mat_templates(s, eng, el, el0, ix, k): return list(s.mats(eng, el, el0, ix, k, eng.outer))
    def rows_templates(s, eng, r, r0, g, k): return list(s.rows(eng, r, r0, g, k, eng.outer))
    def smat_templates(s, eng, el, el0, ix, k): return list(s.smats(eng, el, el0, ix, k, eng.outer))
    def current(s, eng, outer):
        out = s.own + list(s.rec_at(eng, list(outer)))
        for r in out: r.base(eng)
        return out
    def progress(s, eng, sort, depth):
        s.recs = s.current(eng, eng.outer)
        out = []
        for r in s.recs:
            if r.sort == sort: out.append((r.name, lambda k, r=r: r.at(eng, k)))
        return out
    def unroll(s, eng, k):
        for r in s.current(eng, eng.outer): r.unroll(eng, k)
    def extra_candidates(s, eng, q, q0, k, occ):
        out = super().extra_candidates(eng, q, q0, k, occ)
        if s.invs: out += [('inv:'+n, c) for n, c in s.invs(eng, k, eng.outer)]
        return out
    def mat_fn(s, eng, n, m, f): raise Unsupported('matrix '+n)
    def set_precision(s, eng, cell, n):
        """contract of precision(n): the value is rounded to n digits"""
        cell.set(ROUND(I(n), R(cell.get())))
    def precision_axioms(s, eng):
        p, q, x, v = z3.Int('p_'), z3.Int('q_'), z3.Real('x_'), z3.Real('v_')
        eng.fact(z3.ForAll([p, x], AGREES(p, x, x), patterns=[AGREES(p, x, x)]))
        eng.fact(z3.ForAll([p, q, x, v], z3.Implies(z3.And(AGREES(p, x, v), q <= p), AGREES(q, x, ROUND(q, v))), patterns=[z3.MultiPattern(AGREES(p, x, v), ROUND(q, v))]))
        eng.fact(z3.ForAll([q, x], AGREES(q, x, ROUND(q, x)), patterns=[ROUND(q, x)]))
    def drawn(s, eng, tag):
        """the number drawn by the random generator: named by its place in the program and the iteration counts"""
        ks = [I(k) for k in eng.loopk]; f = z3.Function('drawn_'+tag, *([Int]*len(ks)+[Real])); return f(*ks)
    def matmul(s, eng, a, b):
        """entry (i,j) of a product: a sum over the inner index whose summand agrees with one of the registered sums"""
        cache = {}
        def el(i, j):
            key = (toz(i, Int).get_id(), toz(j, Int).get_id())
            if key in cache: return cache[key]
            eng.keepalive.append((toz(i, Int), toz(j, Int)))
            jj = eng.fresh('inner', Int); n = toz(a.cols, Int)
            x = eng.mul(a.elem(i, jj), b.elem(jj, j))
            for ref in s.dots:
                for m, f, v in ref(eng, toz(i, Int), toz(j, Int)):
                    if eng.entails(n == m) and eng.entails(z3.Implies(z3.And(jj >= 0, jj < n), R(x) == R(f(jj)))): cache[key] = v; return v
            raise Unsupported('matrix product')
        return Mat(a.rows, b.cols, el)
