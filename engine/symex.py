"""Symbolic executor / VC generator over the exported Clang AST of the real code.

 * functions are executed symbolically, statement by statement, for all inputs;
 * a call to a function that has a contract is replaced by that contract, any other function of /repo is
   executed in place (so extracting a helper changes nothing);
 * loops with a symbolic bound are cut by invariants (candidate templates filtered Houdini-style, every kept
   candidate is proved at entry and preserved by an arbitrary iteration);
 * branching on a symbolic condition forks the path (by re-execution).
"""
import json, re, sys, time, itertools
from fractions import Fraction
import z3

import os
DEBUG = bool(os.environ.get('B2V_DEBUG'))
class Unsupported(Exception): pass
class Restart(Exception): pass
class PathEnd(Exception): pass
class Infeasible(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ThrowEx(Exception):
    def __init__(s, t, line=0): s.t = t; s.line=line
class AbortEx(Exception):
    def __init__(s, line=0): s.line=line
class AssertEx(AbortEx): pass          # a failed assert

Real, Int, BoolS = z3.RealSort(), z3.IntSort(), z3.BoolSort()

def is_z(x): return isinstance(x, z3.ExprRef)
def is_num(x): return isinstance(x, (int, Fraction, float)) and not isinstance(x, bool)

# ------------------------------------------------------------------ types
def strip_t(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'): t = t[:-2].strip()
        elif t.endswith('&'): t = t[:-1].strip()
        if t.startswith('const '): t = t[6:].strip()
        if t.endswith(' const'): t = t[:-6].strip()
        if t == o: return t
def targs_of(t):
    """top-level template arguments of a type string"""
    i = t.find('<')
    if i < 0: return []
    d = 0; cur = ''; out = []
    for ch in t[i+1:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += ch
    out.append(cur.strip())
    return out
INT_T = {'int':(True,32),'unsigned int':(False,32),'long':(True,64),'unsigned long':(False,64),'short':(True,16),'unsigned short':(False,16),
         'long long':(True,64),'unsigned long long':(False,64),'char':(True,8),'unsigned char':(False,8),'signed char':(True,8)}
def is_number_t(t):
    t = strip_t(t)
    return (t in ('double','float','long double') or t.startswith('std::complex<') or t.startswith('boost::multiprecision::number<')
            or t.startswith('boost::multiprecision::detail::expression<'))
def is_bigint_t(t):
    t = strip_t(t); return t.startswith('boost::multiprecision::number<') and ('gmp_int' in t)
def is_eigen_t(t):
    t = strip_t(t); return t.startswith('Eigen::')
def is_sptr_t(t):
    t = strip_t(t); return t.startswith('std::shared_ptr<') or t.startswith('std::weak_ptr<') or t.startswith('std::unique_ptr<')

# ------------------------------------------------------------------ values
WJ = z3.Int('any_index'); WJ2 = z3.Int('any_index2'); WJ3 = z3.Int('any_index3')
class Cell:
    __slots__ = ('v', 'uid', 'eng', 'name')
    def __init__(s, eng, v=None, name=''):
        s.v = v; s.eng = eng; s.uid = eng.newuid(); s.name = name
        eng.cells[s.uid] = s
    def get(s): return s.v
    def set(s, v):
        s.eng.note_write(s)
        s.v = v
class Val:  # r-value viewed as an l-value (temporaries)
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def get(s): return s.v
    def set(s, v): s.v = v
class FnCell:  # computed l-value
    def __init__(s, g, st): s.g = g; s.st = st
    def get(s): return s.g()
    def set(s, v): s.st(v)
class Obj:
    def __init__(s, eng, cls):
        s.cls = cls; s.f = {}; s.uid = eng.newuid(); s.eng = eng; eng.objs[s.uid] = s; s.term = None; s.ghost = {}
    def cell(s, name):
        c = s.f.get(name)
        if c is None:
            if s.eng.loops: s.eng.touch(s, name)
            c = s.f[name] = Cell(s.eng, s.eng.lazy_field(s, name), s.cls.split('::')[-1]+'.'+name)
        return c
    def __repr__(s): return 'Obj<%s#%d>' % (s.cls.split('::')[-1], s.uid)
class ANode:
    """an object known only through its contracts: identity = z3 term"""
    def __init__(s, term, cls=None): s.term = term; s.cls = cls
    def __repr__(s): return 'ANode(%s)' % s.term
class Ptr:
    def __init__(s, target, cls=None): s.target = target
    def __repr__(s): return 'Ptr(%r)' % (s.target,)
class RawPtr(Ptr): pass
class CellPtr:
    def __init__(s, cell): s.cell = cell
class Opaque:
    def __init__(s, t=''): s.t = t
    def __repr__(s): return 'Opaque(%s)' % s.t
class Seq:
    """std::vector: [0,base_n) given by elem(i), then the explicit tail"""
    def __init__(s, eng, et, base_n=0, elem=None, tail=None, sid=None):
        s.eng = eng; s.et = et; s.base_n = base_n; s.elem = elem; s.tail = tail if tail is not None else []
        s.sid = sid; s.over = []   # writes to base elements: (idx, cell)
    def size(s):
        if is_z(s.base_n): return s.base_n + len(s.tail) if s.tail else s.base_n
        return s.base_n + len(s.tail)
    def clone(s):
        n = Seq(s.eng, s.et, s.base_n, s.elem, [Cell(s.eng, s.eng.copyval(c.get())) for c in s.tail], s.sid)
        n.over = [(i, s.eng.copyval(v)) for i, v in s.over]
        return n
class Recs:
    """a vector of class objects (or of vectors) of any length: one array over the index for each field"""
    def __init__(s, cls, n, arr, like=None):
        s.cls = cls; s.n = n; s.arr = arr; s.wrap = like.wrap if like else {}; s.on_push = like.on_push if like else None; s.init = like.init if like else None
    def size(s): return s.n
    def but(s, n=None, **a): d = dict(s.arr); d.update(a); return Recs(s.cls, s.n if n is None else n, d, s)
    def havoc(s, eng, nm):
        n = eng.fresh(nm+'_n', Int); eng.assume(n >= 0); return s.but(n=n, **{k: eng.fresh(nm+'_'+k, a.sort()) for k, a in s.arr.items()})
    def raw(s, name, v):
        w = s.wrap.get(name); r = s.arr[name].sort().range(); return w[1](v) if w else toz(v, r)
    def store(s, i, o):
        if not s.cls: return s.but(**{'': z3.Store(s.arr[''], i, s.raw('', o))})
        return s.but(**{k: z3.Store(a, i, s.raw(k, o.cell(k).get())) for k, a in s.arr.items()})
    def view(s, eng, cont, i):
        def field(name):
            def g():
                q = cont.get() if not isinstance(cont, Recs) else cont; v = z3.Select(q.arr[name], i); w = q.wrap.get(name); return w[0](v) if w else v
            def st(v): q = cont.get(); cont.set(q.but(**{name: z3.Store(q.arr[name], i, q.raw(name, v))}))
            return FnCell(g, st)
        if not s.cls: return field('')
        o = Obj(eng, s.cls); o.ghost['lazy'] = lambda name: Opaque('field')
        for k in s.arr: o.f[k] = field(k)
        return o
    def at(s, eng, cont, i):
        i = toz(i, Int); eng.check_bound(z3.And(i >= 0, i < toz(s.n, Int)))
        if not s.cls: return s.view(eng, cont, i)
        return FnCell(lambda: (cont if isinstance(cont, Recs) else cont.get()).view(eng, cont, i), lambda o: cont.set(cont.get().store(i, o)))
    def method(s, eng, this, args, n):
        if n == 'size': return s.n
        if n == 'empty': return eng.eq(s.n, 0)
        if n == 'max_size': return z3.IntVal(2**62)
        if n in ('operator[]', 'at'): return s.at(eng, this, eng.rv(args[0]))
        if n == 'front': return s.at(eng, this, 0)
        if n == 'back': return s.at(eng, this, eng.sub(s.n, 1))
        if n == 'clear': this.set(s.but(n=z3.IntVal(0))); return None
        if n == 'pop_back': this.set(s.but(n=toz(s.n, Int)-1)); return None
        if n == 'pop_front':
            q = z3.Int('q!'); this.set(s.but(n=toz(s.n, Int)-1, **{x: z3.Lambda([q], z3.Select(a, q+1)) for x, a in s.arr.items()})); return None
        if n == 'reserve': eng.rv(args[0]); return None
        if n in ('begin', 'cbegin'): return Iter(this, 0)
        if n in ('end', 'cend'): return Iter(this, s.n)
        if n in ('push_back', 'emplace_back') and len(args) == 1:
            o = eng.rv(args[0]); m = toz(s.n, Int)
            if s.on_push: s.on_push(eng, s, o)
            this.set(s.store(m, o).but(n=m+1)); return None
        if n == 'resize' and len(args) == 1 and s.init:
            k, m, q = toz(eng.rv(args[0]), Int), toz(s.n, Int), z3.Int('q!')
            new = {x: s.init(x) for x in s.arr}; new = {x: toz(v, s.arr[x].sort().range()) if v is not None else z3.Select(eng.fresh('unset_'+x, s.arr[x].sort()), q) for x, v in new.items()}
            this.set(s.but(n=k, **{x: z3.Lambda([q], z3.If(z3.And(q >= m, q < k), new[x], z3.Select(a, q))) for x, a in s.arr.items()})); return None
        if n == 'operator=':
            v = eng.rv(args[0])
            if isinstance(v, Recs): this.set(v); return this
        raise Unsupported('vector of objects: '+n)
class MapVal:
    def __init__(s, eng, vt): s.eng = eng; s.items = []; s.vt = vt; s.base = None   # items: (key, Cell)
class Tup:
    def __init__(s, eng, types): s.types = types; s.cells = [Cell(eng, eng.default_value(t)) for t in types]
class Mat:
    """Eigen matrix/vector/expression: rows, cols and element function"""
    wrap = None                                   # (to, from) representative, for matrices of vectors
    def __init__(s, rows, cols, elem, srt=None): s.rows = rows; s.cols = cols; s.elem = elem; s.srt = srt      # srt: sort of the entries (None: numbers)
class Iter:
    def __init__(s, seq, i): s.seq = seq; s.i = i     # seq: python container value, i index
class Lam:
    def __init__(s, node, env, this): s.node = node; s.env = env; s.this = this
class Enum(int): pass
class FnRef:
    def __init__(s, f): s.f = f

def toz(x, sort=None):
    if is_z(x):
        if sort is not None and x.sort() != sort:
            if sort == Real and x.sort() == Int: return z3.ToReal(x)
            if sort == Int and x.sort() == Real: return z3.ToInt(x)
            if sort == Int and x.sort() == BoolS: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if sort == Real and x.sort() == BoolS: return z3.If(x, z3.RealVal(1), z3.RealVal(0))
            if sort == BoolS and x.sort() == Int: return x != 0
            raise Unsupported('sort %s -> %s' % (x.sort(), sort))
        return x
    if isinstance(x, bool):
        if sort in (None, BoolS): return z3.BoolVal(x)
        x = int(x)
    if isinstance(x, int): return z3.IntVal(x) if sort in (None, Int) else z3.RealVal(x) if sort == Real else z3.BoolVal(x != 0)
    if isinstance(x, Fraction): return z3.RealVal(x)
    raise Unsupported('value %r as term' % (x,))

# ------------------------------------------------------------------ program database
class DB:
    def __init__(s): s.fn = {}; s.rec = {}; s.recp = {}; s.glob = {}; s.byq = {}
    def load(s, path):
        for l in open(path):
            o = json.loads(l)
            if o['k'] == 'function':
                s.fn.setdefault(o['key'], o); s.byq.setdefault(o['q'], []).append(o)
            elif o['k'] == 'record': s.rec[o['qn']] = o; s.recp.setdefault(o['q'], o)
            elif o['k'] == 'global': s.glob[o.get('gq') or o['q']] = o
        return s
    def record(s, cls):
        return s.rec.get(cls) or s.recp.get(cls)
    def bases(s, cls):
        out = []; st = [cls]
        while st:
            c = st.pop(0)
            if c in out: continue
            out.append(c)
            r = s.record(c)
            if r: st += r['bases']
        return out
    def find(s, q, pred=lambda f: True):
        seen = set(); r = []
        for f in s.byq.get(q, []):
            if f['key'] in seen: continue
            seen.add(f['key'])
            if pred(f): r.append(f)
        return r

# ------------------------------------------------------------------ engine
class Obligation:
    def __init__(s, name, ok, detail='', soft=False): s.name = name; s.ok = ok; s.detail = detail; s.soft = soft

class Engine:
    def __init__(s, db, theory=None, timeout=4000, max_paths=3000, unroll=40):
        s.db = db; s.theory = theory; s.timeout = timeout; s.max_paths = max_paths; s.unroll = unroll
        s.inv = {}; s.havoc = {}; s.stats = dict(queries=0, solver_s=0.0, paths=0, inlined=set(), contracts=set(), models=set(), asserts_skipped=0)
        s.contract_calls = {}; s.models = {}; s.copy_contracts = set()      # copy_contracts: classes whose copy constructor is proved to copy every field
        from . import models
        models.install(s)
        s.pending_decisions = []
        s.depth = 0
    # ---- per run
    def reset(s, decisions):
        s.uid = 0; s.cells = {}; s.objs = {}; s.decisions = list(decisions); s.dpos = 0; s.taken = []; s.pc = []; s.facts = []
        s.solver = z3.Solver(); s.solver.set('timeout', s.timeout)
        s.names = itertools.count(); s.obl = []; s.loops = []; s.notes = []; s.frames = []; s.used_inv = False; s.abstracted = False
        s.statics = {}; s.loopk = []; s.cand_pc = []; s.depth = 0; s.keepalive = []; s.outer = []
        if s.theory: s.theory.reset(s)
    def newuid(s): s.uid += 1; return s.uid
    def fresh(s, name, sort=Real):
        return z3.Const('%s!%d' % (name, next(s.names)), sort)
    def freshfn(s, name, *sorts): return z3.Function('%s!%d' % (name, next(s.names)), *sorts)
    def touch(s, o, name):
        """a field of an older object seen first inside a loop: it must exist before the loop (so that a write to it is noticed)"""
        for L in s.loops:
            if o.uid < L['stamp']:
                if o.uid not in s.objs: raise Unsupported('field of unknown object')
                if DEBUG: print('   touch', o.cls, name, file=sys.stderr)
                L['touch'].append((o.uid, name)); s.inv_reset = True; raise Restart()
    def note_write(s, cell):
        for L in s.loops:
            if cell.uid < L['stamp'] and cell.uid not in L['W']:
                L['W'].add(cell.uid); L['changed'] = True
    def assume(s, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        s.pc.append(c); s.solver.add(c)
    def fact(s, c):
        if isinstance(c, bool): return
        s.facts.append(c); s.solver.add(c)
    def check(s, *extra):
        t = time.time(); s.stats['queries'] += 1
        r = s.solver.check(*extra); s.stats['solver_s'] += time.time()-t
        return r
    def entails(s, c):
        """is c implied by the path?"""
        if isinstance(c, bool): return c
        r = s.check(z3.Not(c))
        if r == z3.unknown: s.unknowns += 1
        return r == z3.unsat
    unknowns = 0
    def branch(s, c):
        if isinstance(c, bool): return c
        if is_num(c): return c != 0
        c = z3.simplify(toz(c, BoolS))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.dpos < len(s.decisions):
            d = s.decisions[s.dpos]; s.dpos += 1; s.taken.append(d)
            s.assume(c if d else z3.Not(c)); return bool(d)
        r1 = s.check(c); 
        # (a branch decided by the solver is recorded too: replayed paths must consume the same decisions)
        if r1 == z3.unsat:
            s.taken.append(0); s.decisions.append(0); s.dpos += 1
            return False
        r0 = s.check(z3.Not(c))
        if r0 == z3.unsat:
            s.taken.append(1); s.decisions.append(1); s.dpos += 1
            return True
        # fork
        s.pending.append(s.taken + [0])
        s.taken.append(1); s.decisions.append(1); s.dpos += 1
        s.assume(c); return True
    def choose(s, n, tag=''):
        if s.dpos < len(s.decisions):
            d = s.decisions[s.dpos]; s.dpos += 1; s.taken.append(d); return d
        for i in range(n-1, 0, -1): s.pending.append(s.taken + [i])
        s.taken.append(0); s.decisions.append(0); s.dpos += 1
        return 0
    def feasible(s): return s.check() != z3.unsat
    # ---- obligations
    def prove(s, name, c, detail='', soft=False):
        """record obligation: path => c"""
        if isinstance(c, bool): ok = c; why = '' if c else 'false'
        else:
            for d in denominators(c): s.fact(d != 0)
            ok, why = s.decide(c)
        if not ok and not s.feasible(): ok = True
        o = Obligation(name, ok, (detail+' '+str(why))[:1500] if not ok else '', soft)
        o.path = list(s.taken); o.used_inv = s.used_inv or s.abstracted
        o.status = 'proved' if ok is True else why
        s.obl.append(o); return ok
    def decide(s, c, drop=None):
        from . import algebra
        t = time.time(); s.solver.set('timeout', 800)
        r = s.check(z3.Not(c)); s.solver.set('timeout', s.timeout)
        if r == z3.unsat: return True, ''
        if r != z3.sat:      # (a model satisfies every fact the algebra could use, nonzero denominators included)
            try:
                a = None
                if drop: a = algebra.prove(c, s.facts + [f for f in s.pc if f.get_id() not in drop])
                if not a: a = algebra.prove(c, s.facts + s.pc)
            except Exception as ex:
                a = None
                if DEBUG: import traceback; traceback.print_exc()
            s.stats['solver_s'] += time.time()-t
            if a: s.stats['algebra'] = s.stats.get('algebra', 0)+1; return True, ''
        if r == z3.unknown:
            r = s.check(z3.Not(c))
            if r == z3.unsat: return True, ''
        if r == z3.sat:
            m = s.solver.model()
            return False, 'refuted: ' + str(m)[:900]
        s.unknowns += 1
        return False, 'unknown'
    # ---- exploration
    def explore(s, run):
        """run(engine) executes one path and records obligations. Returns all obligations."""
        s.inv_reset = False; attempt = 0
        while attempt < 60:
            attempt += 1
            if s.inv_reset:      # cells are numbered differently now: forget what was learned about them
                s.inv_reset = False; attempt = 1; s.resets = getattr(s, 'resets', 0)+1
                if s.resets > 200: raise Unsupported('too many fields discovered inside loops')
                for k_, st in s.inv.items(): s.inv[k_] = dict(W=set(), dead=set(), seen=False, touch=st.get('touch', []))
            allobl = []; s.pending = [[]]; n = 0; restart = False; s.again = False; s.obl_inv = 0
            while s.pending:
                d = s.pending.pop(); n += 1
                if n > s.max_paths: raise Unsupported('too many paths')
                s.reset(d)
                try: run(s)
                except (PathEnd, AssertEx): pass
                except Infeasible: continue
                except Restart: restart = True
                s.stats['paths'] += 1
                if restart: break
                allobl += s.obl
            if not restart and not s.again: return allobl
        raise Unsupported('invariant inference does not stabilise')
    # ---- loops
    def loop(s, key, cond, step, onk=None):
        """cond() -> truth value; step() executes one iteration.  onk(k): ghost iteration hook"""
        n = 0
        while True:
            d0 = s.dpos; c = cond()
            if s.dpos != d0 and isinstance(c, bool):       # the condition itself took decisions: a symbolic loop
                if not c: return
                break
            if key[0] in getattr(s.theory, 'cut', ()): break      # loops of this kind are cut by an invariant from the start
            if is_z(c): c2 = z3.simplify(c); c = True if z3.is_true(c2) else False if z3.is_false(c2) else c
            if isinstance(c, bool) or is_num(c):
                if not c: return
                try: step()
                except BreakEx: return
                n += 1
                if n > s.unroll: raise Unsupported('unroll limit')
                continue
            if s.entails(c):
                # may still be a symbolic loop whose first iteration is certain: decide by whether the bound is symbolic
                pass
            break
        s.symloop(key, cond, step, n)
    def symloop(s, key, cond, step, n0=0):
        s.used_inv = True
        if hasattr(s.theory, 'loop_entry'): s.theory.loop_entry(s)
        occ = (key, tuple(s.taken), tuple(f['key'] for f in s.frames), n0)
        st = s.inv.setdefault(occ, dict(W=set(), dead=set(), seen=False))
        W = st['W']
        for u, nm in st.setdefault('touch', []):
            if u not in s.objs: raise Unsupported('object of an earlier round not found')
            s.objs[u].cell(nm)
        k = None
        # quantities at entry
        entry = {u: s.cells[u].v for u in W if u in s.cells}
        entry_q = s.quantities(W)
        q0 = {n: t for n, t in entry_q}
        mode = s.choose(2, 'loop')
        # candidates at k = 0
        lv = len(s.loopk); outer = s.outer = list(s.loopk)
        cands0 = s.candidates(entry_q, q0, z3.IntVal(0), occ) + s.elem_cands(W, entry, q0, z3.IntVal(0), WJ)
        dict0 = dict(cands0)
        if mode == 0:
            bad = [n for n, c in cands0 if n not in st['dead'] and not s.entails(c)]
            if DEBUG and bad: print('   killed at entry', bad, 'path', s.taken, file=sys.stderr)
            if bad: st['dead'].update(bad); s.kill_restart()
        # havoc
        stamp = s.uid + 1
        for u in sorted(W):
            c = s.cells[u]; c.v = s.havoc_value(c.v, c.name)
            if isinstance(c.v, Mat):        # dimensions the loop was seen to change
                if 'r%d=old' % u in st['dead']: c.v.rows = s.fresh('rows', Int)
                if 'w%d=old' % u in st['dead']: c.v.cols = s.fresh('cols', Int)
        k = s.fresh('k', Int); s.assume(k >= 0)
        s.loopk.append(k)
        try:
            cpc = {}; s.cand_pc.append(cpc); done = set()
            for phase in (0, 1):
                s.outer = outer; hq = s.quantities(W)
                for n, c in s.candidates(hq, q0, k, occ) + s.elem_cands(W, entry, dict(hq), k, WJ):
                    if n not in st['dead'] and n not in done:
                        done.add(n); s.assume(c)
                        if not isinstance(c, bool) and heavy(c): cpc[n] = c
            st.setdefault('ever', set()).update(done)
            s.outer = outer; s.generalise(W, entry, dict(hq), k, st['dead'])
            miss = [n for n in done if n not in dict0]
            if miss:
                if DEBUG: print('   not established at entry', miss, file=sys.stderr)
                st['dead'].update(miss); s.kill_restart()
            c = cond(); c = toz(c, BoolS)
            if mode == 1:
                c = z3.simplify(c); s.assume(z3.Not(c) if not z3.is_true(c) else False)
                if not s.feasible(): raise Infeasible()
                return
            s.assume(c)
            if s.theory: s.theory.unroll(s, k)
            if not s.feasible(): raise Infeasible()
            L = dict(stamp=stamp, W=W, changed=False, touch=st['touch']); s.loops.append(L)
            try:
                try: step()
                except BreakEx:
                    if L['changed']: s.changed_restart()
                    return
                except (ReturnEx, ThrowEx, AbortEx, PathEnd, Infeasible):
                    if L['changed']: s.changed_restart()
                    raise
            finally:
                s.loops.remove(L)
            if L['changed']: s.changed_restart()
            s.outer = outer; q1 = s.quantities(W)
            bad = []; hv = []
            cs = [(n, c) for n, c in s.candidates(q1, q0, k+1, occ) + s.elem_cands(W, entry, dict(q1), k+1, WJ) if n not in st['dead'] and n in st['ever']]
            have = {n for n, c in cs}; bad += [n for n in st['ever'] if n not in st['dead'] and n not in have]
            for n, c in cs:
                if heavy(c): hv.append((n, c)); continue
                ok, why = s.decide(c)
                if not ok: bad.append(n)
            if not bad and s.again: raise PathEnd()      # judge the costly candidates only in a round where nothing else died
            if not bad:
                for n, c in hv:
                    drop = {x.get_id() for d in s.cand_pc for m, x in d.items() if not (d is cpc and m == n)}
                    ok, why = s.decide(c, drop)
                    if not ok: bad.append(n)
            if DEBUG and bad: print('   killed', bad, 'path', s.taken, [str(x)[:60] for x in s.pc[-4:]], file=sys.stderr)
            if bad: st['dead'].update(bad); s.kill_restart()
            for n, c in s.candidates(q1, q0, k+1, occ):
                if n not in st['dead']:
                    s.obl_inv += 2
            raise PathEnd()
        finally:
            s.loopk.pop()
            while len(s.cand_pc) > len(s.loopk): s.cand_pc.pop()
    # element invariants: formulas about element ix of a sequence, proved for one arbitrary ghost index WJ and
    # therefore valid (and assumed) for every index
    def peekm(s, q, g, i, j):
        """(rows, element) of vector g of a sequence of vectors, without branching"""
        if q.tail or q.elem is None: return None
        m = q.elem(g); r, e = toz(m.rows, Int), toz(m.elem(i, j), Real)
        for a, v in q.over:
            h = toz(g, Int) == toz(a, Int); r = z3.If(h, toz(v.rows, Int), r); e = z3.If(h, toz(v.elem(i, j), Real), e)
        return r, e
    def arr_cands(s, W, entry, k):
        out = []; th = s.theory
        for u in sorted(W):
            c = s.cells.get(u); a, b = (c.v if c is not None else None), entry.get(u)
            if isinstance(a, Mat) and isinstance(b, Mat) and not hasattr(a, 'term') and not hasattr(b, 'term'):
                for tag, f in th.mat_templates(s, s.mterm(a, a.elem(WJ, WJ2)), s.mterm(b, b.elem(WJ, WJ2)), (WJ, WJ2), k): out.append(('a%d:%s' % (u, tag), f))
            elif isinstance(a, Seq) and isinstance(b, Seq) and strip_t(a.et).startswith('Eigen::Matrix<'):
                x, y = s.peekm(a, WJ, WJ2, WJ3), s.peekm(b, WJ, WJ2, WJ3)
                if x is None: continue
                if y is None: y = (z3.IntVal(0), z3.RealVal(0))
                for tag, f in th.rows_templates(s, x[0], y[0], WJ, k): out.append(('a%d:%s' % (u, tag), f))
                for tag, f in th.smat_templates(s, x[1], y[1], (WJ, WJ2, WJ3), k): out.append(('a%d:%s' % (u, tag), f))
        return out
    def arr_generalise(s, W, entry, k, dead):
        th = s.theory; then = s.context()
        def inst(u, gen):
            for tag, f in s.in_context(then, gen):
                if 'a%d:%s' % (u, tag) not in dead: s.fact(f)
        for u in sorted(W):
            c = s.cells.get(u); a, b = (c.v if c is not None else None), entry.get(u)
            if isinstance(a, Mat) and isinstance(b, Mat) and not hasattr(a, 'term') and not hasattr(b, 'term'):
                raw = a.elem; seen = set()
                def el(i, j, raw=raw, u=u, seen=seen, b=b, a=a):
                    r0 = raw(i, j); r = s.mterm(a, r0); zi, zj = toz(i, Int), toz(j, Int); key = (zi.get_id(), zj.get_id())
                    if key not in seen:
                        seen.add(key); s.keepalive.append((zi, zj)); inst(u, lambda: th.mat_templates(s, r, s.mterm(b, b.elem(i, j)), (zi, zj), k))
                    return r0 if isinstance(r0, Ptr) else r
                a.elem = el
            elif isinstance(a, Seq) and isinstance(b, Seq) and strip_t(a.et).startswith('Eigen::Matrix<'):
                raw = a.elem; seen = set()
                def sel(g, raw=raw, u=u, seen=seen, b=b):
                    m = raw(g); zg = toz(g, Int); rows = toz(m.rows, Int); y = s.peekm(b, g, WJ2, WJ3)
                    if zg.get_id() not in seen:
                        seen.add(zg.get_id()); s.keepalive.append(zg); inst(u, lambda: th.rows_templates(s, rows, y[0] if y else z3.IntVal(0), zg, k))
                    def el(i, j):
                        r = toz(m.elem(i, j), Real); zi, zj = toz(i, Int), toz(j, Int); key = (zg.get_id(), zi.get_id(), zj.get_id())
                        if key not in seen:
                            seen.add(key); s.keepalive.append((zi, zj)); y = s.peekm(b, g, i, j)
                            inst(u, lambda: th.smat_templates(s, r, y[1] if y else z3.RealVal(0), (zg, zi, zj), k))
                        return r
                    return Mat(m.rows, m.cols, el)
                a.elem = sel
    def elem_cands(s, W, entry, d, k, ix):
        arr = s.arr_cands(W, entry, k) if hasattr(s.theory, 'mat_templates') else []
        if not hasattr(s.theory, 'elem_templates'): return arr
        out = arr
        for u in sorted(W):
            c = s.cells.get(u)
            if c is None or not isinstance(c.v, Seq) or not isinstance(entry.get(u), Seq): continue
            el, el0 = s.peek(c.v, ix), s.peek(entry[u], ix)
            if el is None or el0 is None: continue
            n0 = toz(entry[u].size(), Int)
            out.append(('e%d<frame' % u, z3.Implies(z3.And(ix >= k, ix < n0), el == el0)))
            for tag, f in s.theory.elem_templates(s, el, el0, ix, k, toz(c.v.size(), Int)): out.append(('e%d:%s' % (u, tag), f))
        return out
    def context(s): return s.outer, getattr(s.theory, 'stage', None)
    def in_context(s, then, gen):
        """the templates of a loop are instantiated later as they were established: with the outer iteration counts and the stage of then"""
        now = s.context(); s.outer, s.theory.stage = then
        try: return list(gen())
        finally: s.outer, s.theory.stage = now
    def generalise(s, W, entry, d, k, dead):
        if hasattr(s.theory, 'mat_templates'): s.arr_generalise(W, entry, k, dead)
        if not hasattr(s.theory, 'elem_templates'): return
        then = s.context()
        for u in sorted(W):
            c = s.cells.get(u)
            if c is None or not isinstance(c.v, Seq) or not isinstance(entry.get(u), Seq) or s.peek(c.v, WJ) is None: continue
            q = c.v; raw = q.elem; seen = set()
            def el(i, q=q, raw=raw, u=u, seen=seen):
                r0 = r = raw(i); zi = toz(i, Int)
                if isinstance(r, Ptr): r = s.theory.term_of(s, r)
                if zi.get_id() not in seen and not zi.eq(WJ):
                    seen.add(zi.get_id()); e0 = s.peek(entry[u], zi)
                    if e0 is not None and is_z(r):
                        n0 = toz(entry[u].size(), Int)
                        if 'e%d<frame' % u not in dead: s.fact(z3.Implies(z3.And(zi >= k, zi < n0), r == e0))
                        for tag, f in s.in_context(then, lambda: s.theory.elem_templates(s, r, e0, zi, k, toz(q.size(), Int))):
                            if 'e%d:%s' % (u, tag) not in dead: s.fact(f)
                return r0
            q.elem = el
    cand_pc = []
    def changed_restart(s): raise Restart()
    def kill_restart(s):
        """candidates died: finish the other paths of this round (their candidates die under the same assumptions), then start over"""
        s.again = True; raise PathEnd()
    obl_inv = 0
    loopk = []
    def quantities(s, W):
        """list of (name, z3 term) describing the havocked state"""
        out = []
        for u in sorted(W):
            c = s.cells.get(u)
            if c is None: continue
            v = c.v
            if is_z(v) or is_num(v) or isinstance(v, bool): out.append(('c%d' % u, toz(v)))
            elif isinstance(v, Seq):
                out.append(('n%d' % u, toz(v.size())))
            elif isinstance(v, Iter): out.append(('i%d' % u, toz(v.i)))
            elif isinstance(v, Mat):
                out.append(('r%d' % u, toz(v.rows))); out.append(('w%d' % u, toz(v.cols)))
        if s.theory: out += s.theory.quantities(s, W)
        return out
    def candidates(s, q, q0, k, occ):
        out = []
        if occ[0][0] in getattr(s.theory, 'bare', ()): return s.theory.extra_candidates(s, q, q0, k, occ)      # only the invariants written down
        for n, t in q:
            t0 = q0.get(n)
            srt = t.sort()
            if t0 is not None and t0.sort() == srt:
                out.append((n+'=old', t == t0))
                if srt == BoolS: out.append((n+' set', z3.Or(k == 0, t))); out.append((n+' cleared', z3.Or(k == 0, z3.Not(t))))
                if srt == Int:
                    out.append((n+'=old+k', t == t0 + k)); out.append((n+'=old-k', t == t0 - k))
                    out.append((n+'>=old', t >= t0)); out.append((n+'>=0', t >= 0))
                    if n[0] == 'n': out.append((n+'>=k', t >= k))
            if s.theory:
                for pn, f in s.theory.progress(s, srt, len(s.loopk)):
                    if z3.is_int_value(k) and k.as_long()==0: fk = f(z3.IntVal(0))
                    else: fk = f(k)
                    out.append((n+'='+pn, t == fk))
                    if t0 is not None and t0.sort() == srt and srt == Real:
                        out.append((n+'=old+'+pn, t == t0 + fk)); out.append((n+'=old*'+pn, t == t0 * fk)); out.append((n+'=old-'+pn, t == t0 - fk))
        if s.theory: out += s.theory.extra_candidates(s, q, q0, k, occ)
        return out
    def peek(s, q, ix):
        """element ix of a sequence of numbers as one term, without branching (None: not expressible)"""
        et = strip_t(q.et)
        if is_sptr_t(et) and getattr(s.theory, 'fold_ptr', False):
            if q.elem is None and not q.tail and not q.over: return z3.Const('no_node', s.theory.Node)
            if q.tail or q.elem is None: return None
            r = s.theory.term_of(s, q.elem(ix))
            for a, v in q.over: r = z3.If(toz(ix, Int) == toz(a, Int), s.theory.term_of(s, v), r)
            return r
        if q.over or not (et == 'bool' or et in INT_T or is_number_t(et)): return None
        srt = BoolS if et == 'bool' else Int if et in INT_T or is_bigint_t(et) else Real
        zb = is_z(q.base_n) or q.base_n != 0
        if zb and q.elem is None: return None
        r = toz(q.elem(ix), srt) if zb else None
        if r is None and not q.tail: return z3.Const('no_element', srt)
        for j, c in reversed(list(enumerate(q.tail))):
            x = toz(c.get(), srt); r = x if r is None and not zb and j == len(q.tail)-1 else z3.If(toz(ix, Int) == toz(s.add(q.base_n, j), Int), x, r if r is not None else x)
        return r
    def havoc_value(s, v, name):
        nm = 'h_' + (name or 'v')
        if hasattr(v, 'havoc'): return v.havoc(s, nm)
        if isinstance(v, bool): return s.fresh(nm, BoolS)
        if isinstance(v, Enum): return s.fresh(nm, Int)
        if isinstance(v, int): return s.fresh(nm, Int)
        if isinstance(v, Fraction): return s.fresh(nm, Real)
        if is_z(v): return s.fresh(nm, v.sort())
        if isinstance(v, Iter): return Iter(v.seq, s.fresh(nm, Int))
        if isinstance(v, Seq): return s.havoc_seq(v, nm)
        if isinstance(v, Mat):
            f = s.freshfn(nm, Int, Int, (Real if v.srt is None else v.srt))
            if v.srt is not None and v.srt != Int: return Mat(v.rows, v.cols, lambda i, j, f=f: Ptr(ANode(f(toz(i, Int), toz(j, Int)))), v.srt)
            r = Mat(v.rows, v.cols, lambda i, j, f=f: f(toz(i, Int), toz(j, Int)), v.srt); r.wrap = v.wrap; return r
        if isinstance(v, Ptr) and s.theory: return s.theory.havoc_ptr(s, v, nm)
        if isinstance(v, Opaque): return v
        if v is None: return None
        raise Unsupported('havoc %r' % (v,))
    def havoc_seq(s, v, nm):
        n = s.fresh(nm+'_n', Int); s.assume(n >= 0)
        et = strip_t(v.et)
        if et == 'bool': f = s.freshfn(nm, Int, BoolS); return Seq(s, v.et, n, lambda i: f(toz(i, Int)), sid=f)
        if et in INT_T: f = s.freshfn(nm, Int, Int); return Seq(s, v.et, n, lambda i: f(toz(i, Int)), sid=f)
        if is_number_t(et): f = s.freshfn(nm, Int, Real); return Seq(s, v.et, n, lambda i: f(toz(i, Int)), sid=f)
        if is_sptr_t(et) and s.theory:
            f = s.freshfn(nm, Int, s.theory.Node); return Seq(s, v.et, n, lambda i: Ptr(ANode(f(toz(i, Int)))), sid=f)
        if et.startswith('Eigen::Matrix<') and is_vec_t(et):
            f, rf = s.freshfn(nm, Int, Int, Int, Real), s.freshfn(nm+'_rows', Int, Int)
            return Seq(s, v.et, n, lambda g: Mat(rf(toz(g, Int)), 1, lambda i, j, g=g: f(toz(g, Int), toz(i, Int), toz(j, Int))), sid=f)
        if et.startswith('std::vector<'): return Opaque('vec')
        raise Unsupported('havoc seq of '+et)
    # ---- value helpers
    def copyval(s, v):
        if isinstance(v, Seq): return v.clone()
        if isinstance(v, Obj):
            n = Obj(s, v.cls); n.ghost = dict(v.ghost)
            for k, c in v.f.items(): n.f[k] = Cell(s, s.copyval(c.get()), c.name)
            n.copy_of = v
            return n
        if isinstance(v, Tup):
            n = Tup.__new__(Tup); n.types = v.types; n.cells = [Cell(s, s.copyval(c.get())) for c in v.cells]; return n
        if isinstance(v, MapVal):
            n = MapVal(s, v.vt); n.base = v.base; n.items = [(k, Cell(s, s.copyval(c.get()))) for k, c in v.items]; return n
        return v
    def lazy_field(s, obj, name):
        """first access of a field of an object whose fields were not built by a constructor"""
        if 'lazy' in obj.ghost: 
            v = obj.ghost['lazy'](name)
            if v is not NotImplemented: return v
        for c in s.db.bases(obj.cls):
            r = s.db.record(c)
            if not r: continue
            for f in r['fields']:
                if f['name'] == name:
                    if obj.ghost.get('built'): return s.default_value(f['t'])
                    return s.sym_value(f['t'], obj.cls.split('::')[-1]+'.'+name)
        return s.sym_value('?', name)
    def field_type(s, cls, name):
        for c in s.db.bases(cls):
            r = s.db.record(c)
            if r:
                for f in r['fields']:
                    if f['name'] == name: return f['t']
        return None
    def sym_value(s, t, name):
        """arbitrary value of type t"""
        t = strip_t(t)
        if t == 'bool': return s.fresh(name, BoolS)
        if t in INT_T:
            x = s.fresh(name, Int); sg, w = INT_T[t]
            s.fact(z3.And(x >= (-(2**(w-1)) if sg else 0), x <= (2**(w-1)-1 if sg else 2**w-1))); return x
        if is_bigint_t(t): return s.fresh(name, Int)
        if is_number_t(t): return s.fresh(name, Real)
        if t.startswith('std::vector<'):
            et = targs_of(t)[0]; n = s.fresh(name+'_n', Int); s.fact(n >= 0)
            sq = Seq(s, et); h = s.havoc_seq(sq, name); 
            return h
        if t.startswith('Eigen::Matrix<') or t.startswith('Eigen::Ref<'):
            r = s.fresh(name+'_rows', Int); c = s.fresh(name+'_cols', Int) if not is_vec_t(t) else z3.IntVal(1)
            s.fact(r >= 0); s.fact(c >= 0) if is_z(c) else None
            f = s.freshfn(name, Int, Int, Real)
            return Mat(r, c, lambda i, j: f(toz(i, Int), toz(j, Int)))
        if t.startswith('std::tuple<'):
            tp = Tup.__new__(Tup); tp.types = targs_of(t); tp.cells = [Cell(s, s.sym_value(x, name+'.%d' % i)) for i, x in enumerate(tp.types)]; return tp
        if t.startswith('std::pair<'):
            a = targs_of(t); o = Obj(s, t); o.f['first'] = Cell(s, s.sym_value(a[0], name+'.first')); o.f['second'] = Cell(s, s.sym_value(a[1], name+'.second')); return o
        if is_sptr_t(t) and s.theory: return s.theory.sym_ptr(s, targs_of(t)[0], name)
        if t.endswith('*'):
            return s.theory.sym_ptr(s, strip_t(t[:-1]), name) if s.theory else Opaque(t)
        if s.db.record(t):
            if self_enum(t): return s.fresh(name, Int)
            o = Obj(s, t); return o
        return Opaque(t)
    def default_value(s, t):
        t = strip_t(t)
        if t == 'bool' or t in INT_T or t in ('double', 'float'): return s.sym_value(t, 'uninit')
        if is_bigint_t(t): return 0
        if is_number_t(t): return Fraction(0) 
        if s.theory and hasattr(s.theory, 'container') and t.startswith(('std::vector<', 'std::deque<', 'Eigen::Matrix<Eigen::Matrix<')):
            r = s.theory.container(s, t)
            if r is not None: return r
        if t.startswith('std::vector<'): return Seq(s, targs_of(t)[0])
        if t.startswith('Eigen::Matrix<std::shared_ptr<') and s.theory and hasattr(s.theory, 'Node'): return Mat(0, 1 if is_vec_t(t) else 0, lambda i, j: Ptr(None), s.theory.Node)
        if t.startswith('Eigen::Matrix<'): 
            return Mat(0, 1 if is_vec_t(t) else 0, lambda i, j: z3.RealVal(0))
        if t.startswith('std::tuple<'): return Tup(s, targs_of(t))
        if t.startswith('std::pair<'):
            a = targs_of(t); o = Obj(s, t); o.f['first'] = Cell(s, s.default_value(a[0])); o.f['second'] = Cell(s, s.default_value(a[1])); return o
        if is_sptr_t(t) or t.endswith('*'): return Ptr(None)
        if t.startswith('std::map<') or t.startswith('std::unordered_map<'): return MapVal(s, targs_of(t)[1])
        if t.startswith('std::array<'):
            a = targs_of(t); n = int(re.match(r'\d+', a[1]).group()); return Seq(s, a[0], tail=[Cell(s, s.default_value(a[0])) for _ in range(n)])
        r = s.db.record(t)
        if r:
            o = Obj(s, t); o.ghost['built'] = True; return o
        return Opaque(t)
    # ---- calls
    def call_fn(s, f, this, args):
        """execute the body of f; args: list of Cells (refs) / Cells"""
        if s.depth > 60: raise Unsupported('recursion depth in '+f['key'][:120])
        for fr in s.frames:
            if fr['key'] == f['key'] and sum(1 for x in s.frames if x['key'] == f['key']) > 3: raise Unsupported('recursion '+f['q'])
        env = {}
        for p, a in zip(f['params'], args):
            env[p['id']] = a
        fr = dict(key=f['key'], env=env, this=this, f=f)
        s.frames.append(fr); s.depth += 1
        try:
            if 'inits' in f: s.run_inits(f, this, env)
            try: s.stmt(f['body'])
            except ReturnEx as r: return r.v
            return None
        finally:
            s.frames.pop(); s.depth -= 1
    def run_inits(s, f, this, env):
        o = this
        for i in f['inits']:
            if 'field' in i:
                t = s.field_type(o.cls, i['field'])
                if t and t.rstrip().endswith('&'): o.f[i['field']] = s.lv(i['e'])
                elif i['e'] is None or (i['e'].get('k') == 'ctor' and not i['e']['args'] and s.db.record(strip_t(t or '')) is None):
                    o.f[i['field']] = Cell(s, s.default_value(t or i['e']['t']), o.cls.split('::')[-1]+'.'+i['field'])
                else:
                    o.f[i['field']] = Cell(s, s.rv(i['e']), o.cls.split('::')[-1]+'.'+i['field'])
            elif 'base' in i or 'deleg' in i:
                e = i['e']
                if e and e.get('k') == 'ctor':
                    fn = s.db.fn.get(e['f']['key'])
                    if fn: s.call_fn(fn, o, s.bind_args(e['f']['pt'], e['args']))
    def bind_args(s, pts, args):
        out = []
        for t, a in zip(pts, args):
            if t.rstrip().endswith('&'): out.append(s.lv(a))
            else: out.append(Cell(s, s.rvcopy(a)))
        for a in args[len(pts):]: out.append(s.lv(a))
        return out
    def rvcopy(s, e):
        v = s.rv(e)
        return v
    def env_get(s, id):
        fr = s.frames[-1]
        c = fr['env'].get(id)
        if c is None:
            e = fr.get('outer')
            while e is not None:
                c = e['env'].get(id)
                if c is not None: return c
                e = e.get('outer')
        return c
    # ---- statements
    def stmt(s, n):
        if n is None: return
        k = n['k']
        m = getattr(s, 'st_'+k, None)
        if m is None: raise Unsupported('statement '+k+' '+str(n.get('c', '')))
        m(n)
    def st_block(s, n):
        for x in n['s']: s.stmt(x)
    def st_null(s, n): pass
    def st_expr(s, n): s.rv(n['e'])
    def st_decl(s, n):
        for d in n['d']: s.declare(d)
    def declare(s, d):
        if d['k'] != 'vd': return
        env = s.frames[-1]['env']
        t = d['t']
        if d.get('static'):
            key = (s.frames[-1]['key'], d['id'])
            if key in s.statics: env[d['id']] = s.statics[key]; return
        if d.get('bindings'):
            v = s.rv(d['init'])
            for i, b in enumerate(d['bindings']):
                if isinstance(v, Obj) and 'first' in v.f: env[b['id']] = v.f['first' if i == 0 else 'second']
                elif isinstance(v, Tup): env[b['id']] = v.cells[i]
                else: raise Unsupported('structured binding')
            return
        if t.rstrip().endswith('&') or strip_t(t).startswith(('Eigen::VectorBlock<', 'Eigen::Block<')):
            env[d['id']] = s.lv(d['init'])
        else:
            if 'init' in d and d['init'] is not None:
                v = s.rv(d['init'])
                v = s.coerce(v, t)
            else: v = s.default_value(t)
            env[d['id']] = Cell(s, v, d['name'])
        if d.get('static'): s.statics[(s.frames[-1]['key'], d['id'])] = env[d['id']]
    def coerce(s, v, t):
        t = strip_t(t)
        if t == 'bool' and is_z(v) and v.sort() == Int: return v != 0
        if is_number_t(t) and not is_bigint_t(t):
            if isinstance(v, bool): return Fraction(int(v))
            if isinstance(v, int): return Fraction(v)
            if is_z(v) and v.sort() == Int: return z3.ToReal(v)
        if isinstance(v, Mat) and v.srt is None and t.startswith('Eigen::Matrix<int'): return Mat(v.rows, v.cols, lambda i, j, o=v.elem: s.as_int(o(i, j)), Int)
        return v
    def as_int(s, x):
        if isinstance(x, Fraction): return int(x)
        return toz(x, Int) if is_z(x) else x
    def st_if(s, n):
        if n.get('init'): s.stmt(n['init'])
        if n.get('var'): s.declare(n['var'])
        c = s.truth(s.rv(n['c']))
        if s.branch(c): s.stmt(n['a'])
        elif n.get('b'): s.stmt(n['b'])
    def truth(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, Ptr): return s.nonnull(v)
        if is_num(v): return v != 0
        if is_z(v):
            if v.sort() == BoolS: return v
            return v != 0
        if isinstance(v, (Obj, ANode, RawPtr, CellPtr)): return True
        if isinstance(v, Opaque) and v.t == 'str': return True
        if isinstance(v, Opaque): raise Unsupported('branch on opaque '+v.t)
        raise Unsupported('truth of %r' % (v,))
    def nonnull(s, p):
        t = p.target
        if t is None: return False
        if isinstance(t, ANode):
            if s.theory: return s.theory.nonnull(s, t)
        return True
    def st_while(s, n):
        def cond():
            if n.get('var'): s.declare(n['var'])
            return s.truth(s.rv(n['c']))
        s.loop(('w', n['l'], s.frames[-1]['key']), cond, lambda: s.body(n['b']))
    def body(s, b):
        try: s.stmt(b)
        except ContinueEx: pass
    def st_do(s, n):
        c = n['c']
        while c['k'] == 'cast': c = c['e']
        if c['k'] in ('int', 'bool') and not int(c['v']):     # do { } while (0)
            try: s.body(n['b'])
            except BreakEx: pass
            return
        def step():
            s.body(n['b'])
            if not s.branch(s.truth(s.rv(n['c']))): raise BreakEx()
        s.symloop(('d', n['l'], s.frames[-1]['key']), lambda: True, step)
    def st_for(s, n):
        if n.get('init'): s.stmt(n['init'])
        def step():
            s.body(n['b'])
            if n.get('inc'): s.rv(n['inc'])
        s.loop(('f', n['l'], s.frames[-1]['key']), lambda: s.truth(s.rv(n['c'])) if n.get('c') else True, step)
    def st_rfor(s, n):
        rng = s.lv(n['range'])
        seq = rng.get()
        env = s.frames[-1]['env']
        if isinstance(seq, MapVal): raise Unsupported('range-for over map')
        ctr = Cell(s, 0, 'rfor')
        byref = n['var']['t'].rstrip().endswith('&')
        def cond():
            return s.lt(ctr.get(), s.seq_size(rng.get()))
        def step():
            c = s.seq_at(rng, ctr.get())
            if byref: env[n['var']['id']] = c
            else: env[n['var']['id']] = Cell(s, s.copyval(c.get()), n['var']['name'])
            s.body(n['b'])
            ctr.set(s.add(ctr.get(), 1))
        s.loop(('r', n['l'], s.frames[-1]['key']), cond, step)
    def st_switch(s, n):
        if n.get('init'): s.stmt(n['init'])
        v = s.rv(n['c'])
        flat = []
        def walk(st):
            if st is None: return
            if st['k'] == 'block':
                for x in st['s']: walk(x)
            elif st['k'] in ('case', 'default'):
                labels = [st]; b = st
                while b is not None and b['k'] in ('case', 'default'): flat.append(('label', b)); b = b['s']
                if b is not None: flat.append(('s', b))
            else: flat.append(('s', st))
        walk(n['b'])
        start = None; dflt = None
        for i, (k, x) in enumerate(flat):
            if k == 'label':
                if x['k'] == 'default': dflt = i; continue
                cv = s.rv(x['v'])
                if s.branch(s.eq(v, cv)): start = i; break
        if start is None: start = dflt
        if start is None: return
        try:
            for k, x in flat[start:]:
                if k == 's': s.stmt(x)
        except BreakEx: pass
    def st_break(s, n): raise BreakEx()
    def st_continue(s, n): raise ContinueEx()
    def st_return(s, n):
        if not n.get('e'): raise ReturnEx(None)
        rt = s.frames[-1]['f']['ret']
        if rt.rstrip().endswith('&'): raise ReturnEx(s.lv(n['e']))
        v = s.rv(n['e'])
        raise ReturnEx(s.coerce(v, rt))
    def st_try(s, n):
        try: s.stmt(n['b'])
        except ThrowEx as t:
            for h in n['h']:
                if 't' not in h or strip_t(h['t']) == t.t or strip_t(h['t']) in ('std::exception',):
                    if h.get('var'): s.frames[-1]['env'][h['var']['id']] = Cell(s, Opaque('exception'))
                    s.stmt(h['b']); return
            raise
    # ---- arithmetic
    def num2(s, a, b):
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if is_z(a) or is_z(b):
            a = toz(a); b = toz(b)
            if a.sort() == BoolS: a = toz(a, Int)
            if b.sort() == BoolS: b = toz(b, Int)
            if a.sort() != b.sort(): a = toz(a, Real); b = toz(b, Real)
        return a, b
    def add(s, a, b): a, b = s.num2(a, b); return a+b
    def sub(s, a, b): a, b = s.num2(a, b); return a-b
    def mul(s, a, b):
        a, b = s.num2(a, b)
        if is_z(a) and is_z(b) and getattr(s.theory, 'umul', None) and a.sort() == Real and b.sort() == Real: return s.theory.umul(s, a, b)
        return a*b
    def div(s, a, b, integer=False):
        a, b = s.num2(a, b)
        if integer:
            if is_z(a) or is_z(b):
                a = toz(a); b = toz(b)
                q = a / b      # z3 Int div: floor for positive divisor
                r = z3.If(z3.And(a < 0, a % b != 0), z3.If(b > 0, q+1, q-1), q)
                return z3.simplify(r) if z3.is_int_value(a) and z3.is_int_value(b) else r
            q = abs(a)//abs(b); return q if (a < 0) == (b < 0) else -q
        if is_z(a) or is_z(b):
            if is_z(b): s.fact(toz(b, Real) != 0)      # assumption: denominators do not vanish
            if getattr(s.theory, 'udiv', None) and is_z(b): return s.theory.udiv(s, toz(a, Real), toz(b, Real))
            return toz(a, Real)/toz(b, Real)
        if b == 0: raise Unsupported('division by zero')
        return Fraction(a)/Fraction(b)
    def lt(s, a, b): a, b = s.num2(a, b); return a < b
    def le(s, a, b): a, b = s.num2(a, b); return a <= b
    def eq(s, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptr_eq(a, b)
        if isinstance(a, Iter) and isinstance(b, Iter): return s.eq(a.i, b.i)
        if isinstance(a, Seq) and isinstance(b, Seq): return s.seq_eq(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('== on opaque')
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if is_z(a) and is_z(b) and a.sort() == BoolS and b.sort() == BoolS: return a == b
        if (is_z(a) and a.sort() == BoolS and isinstance(b, bool)) or (is_z(b) and b.sort() == BoolS and isinstance(a, bool)): return toz(a) == toz(b)
        a, b = s.num2(a, b); return a == b
    def seq_eq(s, a, b):
        """equal lengths and equal elements; a witness where they differ"""
        r, w, q = s.fresh('equal', BoolS), s.fresh('differ_at', Int), z3.Int('q!')
        n, m = toz(a.size(), Int), toz(b.size(), Int)
        def same(i):
            x, y = a.elem(i), b.elem(i)
            if not (isinstance(x, Ptr) and isinstance(y, Ptr) or (is_z(x) or is_num(x)) and (is_z(y) or is_num(y))): raise Unsupported('== on sequences of '+type(x).__name__)
            c = s.eq(x, y); return c if is_z(c) else z3.BoolVal(bool(c))
        s.fact(z3.Implies(r, z3.And(n == m, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), same(q))))))
        s.fact(z3.Implies(z3.Not(r), z3.Or(n != m, z3.And(w >= 0, w < n, z3.Not(same(w)))))); return r
    def mat_eq(s, a, b):
        """equal entries (of equal sizes, which Eigen asserts); a witness where they differ"""
        r, w, u, q, p = s.fresh('equal', BoolS), s.fresh('differ_row', Int), s.fresh('differ_col', Int), z3.Int('q!'), z3.Int('p!'); n, m = toz(a.rows, Int), toz(a.cols, Int)
        c = lambda i, j: toz(s.eq(a.elem(i, j), b.elem(i, j)), BoolS); inside = lambda i, j: z3.And(i >= 0, i < n, j >= 0, j < m)
        s.fact(z3.Implies(r, z3.ForAll([q, p], z3.Implies(inside(q, p), c(q, p))))); s.fact(z3.Implies(z3.Not(r), z3.And(inside(w, u), z3.Not(c(w, u))))); return r
    def ptr_eq(s, a, b):
        ta = a.target if isinstance(a, Ptr) else None; tb = b.target if isinstance(b, Ptr) else None
        if ta is None and tb is None: return True
        if ta is None: return s.not_(s.nonnull(b))
        if tb is None: return s.not_(s.nonnull(a))
        za = getattr(ta, 'term', None); zb = getattr(tb, 'term', None)
        if ta is tb: return True
        if za is not None and zb is not None: return za == zb
        return False
    def not_(s, a):
        if isinstance(a, bool): return not a
        if is_z(a) and a.sort() == BoolS: return z3.Not(a)
        return s.not_(s.truth(a))
    def and_(s, a, b):
        if isinstance(a, bool): return b if a else False
        if isinstance(b, bool): return a if b else False
        return z3.And(a, b)
    def wrap(s, v, t):
        t = strip_t(t)
        if t in INT_T and not INT_T[t][0]:
            w = INT_T[t][1]
            if isinstance(v, int): return v % (2**w)
        return v
    def binop(s, op, a, b, t, ta='', tb=''):
        t = strip_t(t)
        if isinstance(a, Iter) or isinstance(b, Iter):
            return s.iter_op(op, a, b)
        if op in ('==', '!='):
            r = s.eq(a, b); return r if op == '==' else s.not_(r)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('op')
        if isinstance(a, Mat) or isinstance(b, Mat): return s.mat_op(op, a, b)
        if op == '<': return s.lt(a, b)
        if op == '>': return s.lt(b, a)
        if op == '<=': return s.le(a, b)
        if op == '>=': return s.le(b, a)
        if op == '+': return s.wrap(s.add(a, b), t)
        if op == '-':
            r = s.sub(a, b)
            if t in INT_T and not INT_T[t][0]:
                if isinstance(r, int): return s.wrap(r, t)
                if is_z(r) and r.sort() == Int:
                    w = INT_T[t][1]; a, b = s.num2(a, b)
                    if s.entails(toz(a) >= toz(b)): return r
                    return z3.If(toz(a) >= toz(b), r, r + 2**w)
            return r
        if op == '*': return s.wrap(s.mul(a, b), t)
        if op == '/': return s.div(a, b, integer=(t in INT_T or is_bigint_t(t)))
        if op == '%':
            a, b = s.num2(a, b)
            if is_z(a) or is_z(b):
                a = toz(a); b = toz(b)
                if t in INT_T and INT_T[t][0] and not s.entails(a >= 0):
                    return a - b*s.div(a, b, True)
                return a % b
            return a - b*s.div(a, b, True)
        if op in ('^', '&', '|'):
            a, b = unbool(a), unbool(b)
            if all(isinstance(x, bool) or (is_z(x) and x.sort() == BoolS) for x in (a, b)):
                if op == '^': return (a != b) if isinstance(a, bool) and isinstance(b, bool) else z3.Xor(toz(a), toz(b))
                if op == '&': return s.and_(a, b)
                return s.not_(s.and_(s.not_(a), s.not_(b)))
            if isinstance(a, int) and isinstance(b, int): return {'^': a ^ b, '&': a & b, '|': a | b}[op]
            if op == '&' and isinstance(b, int) and b == 1 and is_z(a) and a.sort() == Int: return a % 2
            raise Unsupported('bit operation')
        if op in ('<<', '>>') and isinstance(b, int) and is_z(a) and a.sort() == Int and s.entails(a >= 0): return a * 2**b if op == '<<' else a / (2**b)
        if op in ('<<', '>>') and isinstance(a, int) and isinstance(b, int): return a << b if op == '<<' else a >> b
        raise Unsupported('binop '+op)
    def iter_op(s, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == '-': return s.sub(a.i, b.i)
            if op == '==': return s.eq(a.i, b.i)
            if op == '!=': return s.not_(s.eq(a.i, b.i))
            if op == '<': return s.lt(a.i, b.i)
            if op == '>': return s.lt(b.i, a.i)
            if op == '<=': return s.le(a.i, b.i)
            if op == '>=': return s.le(b.i, a.i)
        elif isinstance(a, Iter):
            if op == '+': return Iter(a.seq, s.add(a.i, b))
            if op == '-': return Iter(a.seq, s.sub(a.i, b))
        elif op == '+': return Iter(b.seq, s.add(a, b.i))
        raise Unsupported('iterator op '+op)
    # ---- sequences
    def seq_size(s, q):
        if isinstance(q, (Seq, Recs)): return q.size()
        if isinstance(q, Mat): return s.mat_size(q)
        if isinstance(q, MapVal): raise Unsupported('map size')
        if isinstance(q, Obj) and 'lst' in q.f: return s.seq_size(q.f['lst'].get())
        raise Unsupported('size of %r' % (q,))
    def mat_size(s, m):
        if is_num(m.cols) and m.cols == 1: return m.rows
        if is_z(m.cols) and z3.is_int_value(m.cols) and m.cols.as_long() == 1: return m.rows
        if is_num(m.rows) and m.rows == 1: return m.cols
        return s.mul(m.rows, m.cols)
    def seq_at(s, cont, i):
        """cont: cell holding a Seq (or Mat vector)"""
        q = cont.get() if not isinstance(cont, (Seq, Mat)) else cont
        if isinstance(q, Mat): return s.mat_at(cont, i, 0)
        if isinstance(q, Recs): return q.at(s, cont, i)
        if not isinstance(q, Seq): raise Unsupported('index of %r' % (q,))
        if is_z(i):
            j = z3.simplify(i); i = j.as_long() if z3.is_int_value(j) else i
        bn = q.base_n
        if isinstance(bn, int) and bn == 0:
            if isinstance(i, int):
                if i < 0 or i >= len(q.tail): s.oob(); raise AbortEx()
                return q.tail[i]
            # symbolic index in explicit list: fork
            for j in range(len(q.tail)):
                if s.branch(toz(i) == j): return q.tail[j]
            s.oob(); raise AbortEx()
        inb = s.and_(s.le(0, i), s.lt(i, bn))
        if not q.tail or s.branch(inb):
            if not q.tail: s.check_bound(inb)
            for (j, v) in reversed(q.over):
                if s.branch(s.eq(i, j)): return s.over_cell(cont, i, v)
            return s.over_cell(cont, i, q.elem(i))
        off = s.sub(i, bn)
        for j in range(len(q.tail)):
            if s.branch(s.eq(off, j)): return q.tail[j]
        s.oob(); raise AbortEx()
    def over_cell(s, cont, i, v):
        def st(nv):
            q = cont.get() if not isinstance(cont, (Seq, Mat)) else cont
            n = Seq(s, q.et, q.base_n, q.elem, q.tail, q.sid); n.over = q.over + [(i, nv)]
            if (is_z(nv) or is_num(nv) or isinstance(nv, bool)):
                old = q.elem; srt = toz(nv).sort()
                n.over = []
                ov = list(q.over) + [(i, nv)]
                def el(j, old=old, ov=ov):
                    o = toz(old(j))
                    for a, b in ov: o = z3.If(toz(j, Int) == toz(a, Int), toz(b, o.sort()), o)
                    return o
                n.elem = el
            if isinstance(cont, Seq): raise Unsupported('write to temporary sequence')
            cont.set(n)
        return FnCell(lambda: v, st)
    def check_bound(s, inb):
        if isinstance(inb, bool): ok = inb
        else: ok = s.entails(inb)
        if not ok: s.notes.append('index not proved in bounds'); s.oob_unproved = True
    def oob(s): s.notes.append('out of bounds')
    # ---- matrices
    def mterm(s, m, x):
        """entry x of matrix m as a term"""
        return toz(x, (Real if m.srt is None else m.srt)) if m.srt is None or m.srt == Int else s.theory.term_of(s, x)
    def mat_at(s, cont, i, j):
        m = cont.get() if not isinstance(cont, Mat) else cont
        def g(): 
            mm = cont.get() if not isinstance(cont, Mat) else cont
            return mm.wrap[0](mm.elem(i, j)) if mm.wrap else mm.elem(i, j)
        def st(v):
            mm = cont.get(); old = mm.elem; srt = mm.srt
            if mm.wrap:
                x = mm.wrap[1](v); w = Mat(mm.rows, mm.cols, lambda a, b: z3.If(toz(s.and_(s.eq(a, i), s.eq(b, j)), BoolS), x, toz(old(a, b), Real))); w.wrap = mm.wrap; cont.set(w); return
            vv = s.coerce(v, 'double') if srt is None else v
            if isinstance(vv, Seq) or isinstance(vv, Mat): raise Unsupported('matrix of vectors')
            def el(a, b, old=old, v=vv, i=i, j=j):
                c = s.and_(s.eq(a, i), s.eq(b, j))
                if isinstance(c, bool): return v if c else old(a, b)
                if srt is not None and srt != Int: return Ptr(ANode(z3.If(c, s.theory.term_of(s, v), s.theory.term_of(s, old(a, b)))))
                return z3.If(c, toz(v, (Real if srt is None else srt)), toz(old(a, b), (Real if srt is None else srt)))
            cont.set(Mat(mm.rows, mm.cols, el, srt))
        return FnCell(g, st)
    def mat_op(s, op, a, b):
        if op in ('+', '-') and isinstance(a, Mat) and isinstance(b, Mat):
            f = s.add if op == '+' else s.sub
            return Mat(a.rows, a.cols, lambda i, j: f(a.elem(i, j), b.elem(i, j)))
        if op == '*':
            if isinstance(a, Mat) and not isinstance(b, Mat): return Mat(a.rows, a.cols, lambda i, j: s.mul(a.elem(i, j), b))
            if isinstance(b, Mat) and not isinstance(a, Mat): return Mat(b.rows, b.cols, lambda i, j: s.mul(a, b.elem(i, j)))
        if op == '/' and isinstance(a, Mat) and not isinstance(b, Mat): return Mat(a.rows, a.cols, lambda i, j: s.div(a.elem(i, j), b))
        if op == '*' and isinstance(a, Mat) and isinstance(b, Mat) and s.theory: return s.theory.matmul(s, a, b)
        raise Unsupported('matrix op '+op)
    # ---- expressions
    def rv(s, e):
        k = e['k']
        m = getattr(s, 'ex_'+k, None)
        if m is None: raise Unsupported('expression '+k+' '+str(e.get('c', '')))
        r = m(e)
        if isinstance(r, (Cell, FnCell, Val)): r = r.get()
        return r
    def lv(s, e):
        k = e['k']
        m = getattr(s, 'lv_'+k, None)
        if m is not None: return m(e)
        m = getattr(s, 'ex_'+k, None)
        if m is None: raise Unsupported('expression '+k+' '+str(e.get('c', '')))
        r = m(e)
        if isinstance(r, (Cell, FnCell, Val)): return r
        return Cell(s, r)
    def ex_int(s, e): return int(e['v'])
    def ex_bool(s, e): return e['v']
    def ex_float(s, e): return Fraction(repr(float(e['v'])))      # the decimal that was written
    def ex_str(s, e):
        o = Opaque('str'); o.text = e['v']; return o
    def ex_null(s, e): return Ptr(None)
    def ex_this(s, e): return RawPtr(s.frames[-1]['this'])
    def ex_enum(s, e): return Enum(e['v'])
    def ex_zero(s, e):
        t = strip_t(e['t'])
        if t == 'bool': return False
        if t in INT_T: return 0
        if is_number_t(t): return Fraction(0)
        return s.default_value(t)
    def ex_fn(s, e): return FnRef(e['f'])
    def ex_typeid(s, e): return Opaque('typeid')
    def ex_delete(s, e): return None
    def lv_ref(s, e):
        c = s.env_get(e['id'])
        if c is not None: return c
        if 'global' in e:
            if 'cv' in e: return Val(e['cv'])
            g = s.global_value(e)
            return g
        raise Unsupported('unbound variable '+e['name'])
    def ex_ref(s, e): return s.lv_ref(e)
    def global_value(s, e):
        key = 'G:'+e.get('gq', e['global'])
        if key in s.statics: return s.statics[key]
        g = s.db.glob.get(e.get('gq')) or s.db.glob.get(e['global'])
        if g and 'init' in g and g['init']:
            s.frames.append(dict(key='global', env={}, this=None, f={'ret': ''}))
            try: v = s.rv(g['init'])
            finally: s.frames.pop()
        else: v = Opaque(e['t'])
        s.statics[key] = Cell(s, v); return s.statics[key]
    def deref(s, v):
        """object designated by a pointer-like value"""
        if isinstance(v, Ptr):
            if v.target is None: raise AbortEx()
            return v.target
        if isinstance(v, Iter): return s.seq_at(v.seq, v.i).get()
        if isinstance(v, CellPtr): return v.cell.get()
        return v
    def base_obj(s, e, arrow):
        v = s.rv(e) if arrow else s.lv(e).get()
        if arrow or isinstance(v, Ptr) and not isinstance(v, Obj): 
            return s.deref(v)
        return v
    def lv_mem(s, e):
        b = e['base']
        o = s.deref(s.rv(b)) if e['arrow'] else s.lv(b).get()
        if isinstance(o, Obj): return o.cell(e['name'])
        if isinstance(o, ANode) and s.theory: return s.theory.anode_field(s, o, e['name'])
        raise Unsupported('member %s of %r' % (e['name'], o))
    def ex_mem(s, e): return s.lv_mem(e)
    def ex_cast(s, e):
        ck = e['ck']; t = strip_t(e['t'])
        if ck == 'ToVoid': s.rv(e['e']); return None
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'LValueToRValue', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BitCast', 'BaseToDerived', 'UncheckedDerivedToBase'): return s.lv(e['e'])
        v = s.rv(e['e'])
        if ck == 'Dynamic': return s.dyncast(v, strip_t(t.rstrip('*').rstrip()))
        if ck in ('NullToPointer',): return Ptr(None)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return s.truth(v)
        if ck == 'IntegralCast':
            if isinstance(v, bool): return int(v)
            if is_z(v) and v.sort() == BoolS: return toz(v, Int)
            if isinstance(v, int): return s.wrap(v, t)
            if is_z(v) and t in INT_T and not INT_T[t][0]:
                w = INT_T[t][1]
                if s.entails(v >= 0): return v
                return z3.If(v >= 0, v, v + 2**w)
            return v
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingRealToComplex', 'IntegralRealToComplex'):
            if isinstance(v, bool): return Fraction(int(v))
            if isinstance(v, int): return Fraction(v)
            if is_z(v) and v.sort() in (Int, BoolS): return toz(v, Real)
            return v
        if ck == 'FloatingToIntegral':
            if isinstance(v, Fraction): return int(v)
            if isinstance(v, int): return v
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        raise Unsupported('cast '+ck)
    def ex_un(s, e):
        op = e['op']
        if op in ('++', '--'):
            c = s.lv(e['e']); old = c.get()
            new = s.binop('+' if op == '++' else '-', old, 1, e['t'])
            c.set(new)
            return old if e['post'] else c
        if op == '*':
            v = s.rv(e['e'])
            if isinstance(v, Iter): return s.seq_at(v.seq, v.i)
            if isinstance(v, CellPtr): return v.cell
            return Val(s.deref(v))
        if op == '&':
            c = s.lv(e['e']); v = c.get()
            if isinstance(v, (Obj, ANode)): return RawPtr(v)
            return CellPtr(c)
        v = s.rv(e['e'])
        if op == '!': return s.not_(s.truth(v))
        if op == '-': return s.neg(v, e['t'])
        if op == '+': return v
        if op == '__extension__': return v
        raise Unsupported('unary '+op)
    def neg(s, v, t=''):
        if isinstance(v, Mat): return Mat(v.rows, v.cols, lambda i, j: s.neg(v.elem(i, j)))
        if isinstance(v, bool): v = int(v)
        if is_z(v) and v.sort() == BoolS: v = toz(v, Int)
        r = -v
        return s.wrap(r, t)
    def ex_bin(s, e):
        op = e['op']
        if op in ('&&', '||'):
            a = s.truth(s.rv(e['a']))
            # short circuit: fork on the first operand
            if s.branch(a):
                if op == '||': return True
                return s.truth(s.rv(e['b']))
            if op == '&&': return False
            return s.truth(s.rv(e['b']))
        return s.binop(op, s.rv(e['a']), s.rv(e['b']), e['t'])
    def ex_comma(s, e): s.rv(e['a']); return s.lv(e['b'])
    def ex_assign(s, e):
        v = s.rv(e['b']); c = s.lv(e['a']); c.set(s.coerce(v, e['t'])); return c
    def ex_cassign(s, e):
        c = s.lv(e['a']); b = s.rv(e['b'])
        v = s.binop(e['op'], c.get(), b, e.get('ct', e['t']))
        t = strip_t(e['t'])
        if t in INT_T and is_z(v) and v.sort() == Real: v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        c.set(s.coerce(v, t)); return c
    def ex_cond(s, e):
        c = s.truth(s.rv(e['c']))
        if is_z(c):
            # abort idiom of assert()
            for side, val in (('b', True), ('a', False)):
                x = e[side]
                if x['k'] == 'call' and x.get('f', {}).get('n') == '__assert_fail':
                    s.on_assert(c if val else z3.Not(c), e['l']); return None
        if s.branch(c): return s.lv(e['a']) if e['t'] != 'void' else s.rv(e['a'])
        return s.lv(e['b']) if e['t'] != 'void' else s.rv(e['b'])
    def on_assert(s, c, line):
        """assert(c): the failing side aborts, it never yields a value; continue with c"""
        s.stats['asserts_skipped'] += 1
        s.assume(c)
        if not s.feasible(): raise AssertEx(line)
    def ex_idx(s, e):
        a = s.rv(e['a']); i = s.rv(e['b'])
        if isinstance(a, Seq): return s.seq_at(a, i)
        if isinstance(a, CellPtr) and isinstance(a.cell.get(), Seq): return s.seq_at(a.cell, i)
        raise Unsupported('array subscript')
    def ex_throw(s, e):
        raise ThrowEx(strip_t(e['e']['t']) if e.get('e') else '', e['l'])
    def ex_ilist(s, e):
        t = strip_t(e['t'])
        if t.startswith('std::initializer_list<') or t.endswith(']'):
            et = targs_of(t)[0] if '<' in t and t.startswith('std::init') else t[:t.rfind('[')]
            return Seq(s, et, tail=[Cell(s, s.rv(a)) for a in e['args']])
        if len(e['args']) == 1: return s.coerce(s.rv(e['args'][0]), t)
        if not e['args']: return s.ex_zero(e)
        r = s.db.record(t)
        if r:
            o = Obj(s, t)
            for f, a in zip(r['fields'], e['args']): o.f[f['name']] = Cell(s, s.rv(a))
            return o
        raise Unsupported('init list '+t)
    def ex_lambda(s, e):
        fr = s.frames[-1]
        env = {}
        for c in e['caps']:
            if 'id' in c:
                cc = s.env_get(c['id'])
                if cc is None: continue
                env[c['id']] = cc if c['byref'] else Cell(s, s.copyval(cc.get()))
        return Lam(e, dict(env=env, outer=fr), fr['this'])
    def call_lambda(s, lam, args):
        n = lam.node
        f = n.get('fn')
        if f is None:
            ins = n.get('insts') or []
            if not ins: raise Unsupported('generic lambda')
            f = ins[0]
        env = dict(lam.env['env'])
        for p, a in zip(f['params'], args):
            env[p['id']] = a if p['t'].rstrip().endswith('&') else Cell(s, s.copyval(a.get()))
        s.frames.append(dict(key=f['key'], env=env, this=lam.this, f=f, outer=lam.env['outer'])); s.depth += 1
        try:
            try: s.stmt(f['body'])
            except ReturnEx as r: return r.v
            return None
        finally: s.frames.pop(); s.depth -= 1
    def ex_new(s, e):
        if e.get('arr'): raise Unsupported('new[]')
        if e.get('ctor'): v = s.rv(e['ctor'])
        elif e.get('init'): v = s.rv(e['init'])
        else: v = s.default_value(e['at'])
        return RawPtr(v)
    def ex_ctor(s, e):
        f = e['f']; t = strip_t(e['t'])
        if (e.get('copy') or e.get('move')) and len(e['args']) >= 1:
            src = s.rv(e['args'][0])
            if isinstance(src, Obj):
                fn = s.db.fn.get(f['key'])
                if fn and fn.get('inits') is not None and e.get('copy') and s.db.record(t) and not e.get('elide') and t not in s.copy_contracts:
                    o = Obj(s, t); o.ghost['built'] = True
                    s.call_fn(fn, o, [s.lv(e['args'][0])]); return o
                if e.get('elide') or e.get('move'): return src if e.get('elide') else s.move(src, e['args'][0])
            return s.copyval(src) if not e.get('elide') else src
        m = s.models.get(f['q']) or s.models.get(f['clsp']+'::ctor') if 'clsp' in f else None
        c = s.contract_calls.get(f['q'])
        if c:
            r = c(s, f, None, e)
            if r is not NotImplemented: return r
        if f['q'] in s.models: 
            r = s.models[f['q']](s, e, f)
            if r is not NotImplemented: return r
        fn = s.db.fn.get(f['key'])
        if fn is not None:
            o = Obj(s, t); o.ghost['built'] = True
            s.stats['inlined'].add(fn['q'])
            s.call_fn(fn, o, s.bind_args(f['pt'], e['args'])); return o
        r = s.ctor_model(e, f, t)
        if r is not NotImplemented: return r
        if '__normal_iterator' in f['q'] and len(e['args']) == 1: return s.rv(e['args'][0])
        if not e['args']: return s.default_value(t)
        if s.db.record(t) and len(e['args']) == 0: return s.default_value(t)
        raise Unsupported('constructor '+f['q']+' for '+t[:80])
    def move(s, v, e): return s.copyval(v) if not isinstance(v, Obj) else v
    def ctor_model(s, e, f, t):
        a = e['args']
        if is_bigint_t(t):
            if not a: return 0
            return s.rv(a[0])
        if is_number_t(t):
            if not a: return Fraction(0)
            vals = [s.rv(x) for x in a]
            while len(vals) > 1 and isinstance(vals[-1], Ptr): vals.pop()
            if getattr(vals[0], 'text', None):
                try: return Fraction(vals[0].text)
                except ValueError: pass
            if isinstance(vals[0], Opaque) : return s.theory.opaque_num(s, vals[0]) if s.theory else Opaque(t)
            tt = t
            if 'rational' in t or 'gmp_rational' in t:
                if len(vals) >= 2: return s.div(vals[0], vals[1])
                return s.coerce(vals[0], 'double')
            if len(vals) >= 2 and not ('mpfr_float_backend' in t and 'mpc' not in t):
                im = vals[1]
                if is_num(im) and im == 0: return s.coerce(vals[0], 'double')
                if 'unsigned' in strip_t(f['pt'][1]) and 'complex' not in t: return s.coerce(vals[0], 'double')
                if 'unsigned' in strip_t(f['pt'][1]): return s.coerce(vals[0], 'double')
                return s.cplx(vals[0], im)
            return s.coerce(vals[0], 'double')
        if s.theory and hasattr(s.theory, 'container') and t.startswith(('std::vector<', 'std::deque<', 'Eigen::Matrix<Eigen::Matrix<')):
            r = s.theory.container(s, t, a)
            if r is not None: return r
        if t.startswith('std::vector<'):
            et = targs_of(t)[0]
            if not a: return Seq(s, et)
            v0 = s.rv(a[0])
            if isinstance(v0, Seq): return v0.clone()
            if isinstance(v0, Recs): return v0
            if is_num(v0) or is_z(v0):
                init = s.rv(a[1]) if len(a) > 1 and not isinstance(a[1], type(None)) and a[1].get('k') != 'unk' and 'allocator' not in a[1].get('t', '') else s.zero_of(et)
                if isinstance(v0, int): return Seq(s, et, tail=[Cell(s, s.copyval(init)) for _ in range(v0)])
                return Seq(s, et, v0, lambda i, init=init: init)
            if isinstance(v0, Iter):
                v1 = s.rv(a[1]); src = v0.seq.get() if not isinstance(v0.seq, (Seq, Mat)) else v0.seq
                if isinstance(v0.i, int) and v0.i == 0 and isinstance(src, Seq): 
                    if s.entails(toz(s.eq(v1.i, src.size()))): return src.clone()
                raise Unsupported('vector range')
            raise Unsupported('vector ctor')
        if is_sptr_t(t):
            if not a: return Ptr(None)
            v = s.rv(a[0]); 
            if isinstance(v, Ptr): return Ptr(v.target)
            raise Unsupported('shared_ptr ctor')
        if t.startswith('Eigen::Matrix<'):
            if not a: return s.default_value(t)
            vals = [s.rv(x) for x in a]
            if isinstance(vals[0], Mat): return vals[0]
            z = lambda i, j: z3.RealVal(0)
            if len(vals) == 1 and isinstance(vals[0], Seq):
                return s.mat_from_array(vals[0], t)
            if t.startswith('Eigen::Matrix<std::shared_ptr<') and len(vals) == 2 and s.theory and hasattr(s.theory, 'Node'): return Mat(vals[0], vals[1], lambda i, j: Ptr(None), s.theory.Node)
            f0 = s.freshfn('uninit', Int, Int, Real)
            el = lambda i, j: f0(toz(i, Int), toz(j, Int))
            if is_vec_t(t): return Mat(vals[0], 1, el)
            if len(vals) == 2: return Mat(vals[0], vals[1], el)
            raise Unsupported('matrix ctor')
        if t.startswith('std::pair<') and len(a) == 2:
            o = Obj(s, t); o.f['first'] = Cell(s, s.rv(a[0])); o.f['second'] = Cell(s, s.rv(a[1])); return o
        if t.startswith('std::tuple<'):
            tp = Tup.__new__(Tup); tp.types = targs_of(t)
            if len(a) == len(tp.types): tp.cells = [Cell(s, s.rv(x)) for x in a]; return tp
        if t.startswith('std::') or t.startswith('boost::'):
            if t.startswith('std::basic_string') or 'runtime_error' in t or 'exception' in t or 'stream' in t or t.startswith('std::out_of_range') or t.startswith('std::logic') or 'allocator' in t:
                return Opaque(t)
            if '__normal_iterator' in t or 'iterator' in t.lower():
                v = s.rv(a[0]); return v
            if t.startswith('std::function<'):
                return s.rv(a[0])
        return NotImplemented
    def mat_from_array(s, seq, t):
        ta = targs_of(t); r = int(ta[1]); c = int(ta[2])
        if r < 0 or c < 0: raise Unsupported('dynamic matrix from array')
        def el(i, j):
            idx = s.add(i, s.mul(j, r))
            if isinstance(idx, int): return seq.tail[idx].get()
            raise Unsupported('symbolic index in constant table')
        return Mat(r, c, el)
    def zero_of(s, et):
        et = strip_t(et)
        if et == 'bool': return False
        if et in INT_T: return 0
        if is_number_t(et): return Fraction(0)
        return s.default_value(et)
    def cplx(s, re_, im):
        f = z3.Function('cplx', Real, Real, Real)
        return f(toz(re_, Real), toz(im, Real))
    # ---- calls
    def ex_call(s, e):
        if 'f' not in e:
            v = s.rv(e['fe'])
            if isinstance(v, Lam): return s.call_lambda(v, [s.lv(a) for a in e['args']])
            if isinstance(v, FnRef): return s.invoke(v.f, None, e['args'], e)
            raise Unsupported('indirect call')
        return s.invoke(e['f'], None, e['args'], e)
    def ex_mcall(s, e):
        if 'f' not in e: raise Unsupported('member call')
        if e['arrow']:
            this = s.rv(e['obj'])
            cell = Val(s.deref(this))
        else:
            cell = s.lv(e['obj'])
        return s.invoke(e['f'], cell, e['args'], e)
    def ex_op(s, e):
        f = e.get('f')
        if f is None: raise Unsupported('operator without callee')
        if e.get('meth'):
            if f.get('n') == 'operator()' :
                fv = s.lv(e['args'][0]).get()
                if isinstance(fv, Lam): return s.call_lambda(fv, [s.lv(a) for a in e['args'][1:]])
            return s.invoke(f, s.lv(e['args'][0]), e['args'][1:], e, op=e['op'])
        return s.invoke(f, None, e['args'], e, op=e['op'])
    def invoke(s, f, this, args, e, op=None):
        q = f['q']
        # contracts (modular): by qualified name
        c = s.contract_calls.get(q)
        if c:
            r = c(s, f, this, e if op is None else dict(e, args=args))
            if r is not NotImplemented: s.stats['contracts'].add(q); return r
        m = s.models.get(q)
        if m is not None:
            r = m(s, dict(e, args=args, this=this, op=op), f)
            if r is not NotImplemented: return r
        o = this.get() if this is not None else None
        if isinstance(o, ANode) and s.theory:
            r = s.theory.anode_call(s, o, f, args)
            if r is not NotImplemented: s.stats['contracts'].add('virtual '+f['n']); return r
        fn = s.resolve(f, o, e)
        if fn is not None:
            if fn['q'] != q and fn['q'] in s.contract_calls:
                r = s.contract_calls[fn['q']](s, fn, this, e if op is None else dict(e, args=args))
                if r is not NotImplemented: s.stats['contracts'].add(fn['q']); return r
            s.stats['inlined'].add(fn['q'])
            r = s.call_fn(fn, o, s.bind_args(f['pt'], args))
            return r
        # generic model families
        from . import models
        r = models.generic(s, f, this, args, e, op)
        if r is not NotImplemented: return r
        raise Unsupported('call '+f['key'][:200])
    def resolve(s, f, o, e):
        if f.get('virt') and isinstance(o, Obj) and not e.get('qualified'):
            k = s.override(o.cls, f['key'], f['n'])
            if k: return s.db.fn.get(k)
        return s.db.fn.get(f['key'])
    def override(s, cls, key, name):
        sig = key[key.index('('):] if '(' in key else ''
        sig = key[len(key.split('(')[0]):]
        for c in s.db.bases(cls):
            r = s.db.record(c)
            if not r: continue
            for m in r['methods']:
                if m['n'] == name and m['key'][len(m['key'].split('(')[0]):] == sig and not m['pure']:
                    return m['key']
        return None
    def dyncast(s, v, cls):
        if not isinstance(v, Ptr): raise Unsupported('dynamic cast')
        t = v.target
        if t is None: return Ptr(None)
        if isinstance(t, Obj):
            return Ptr(t) if cls in s.db.bases(t.cls) else Ptr(None)
        if isinstance(t, ANode): return s.theory.dyncast(s, t, cls)
        raise Unsupported('dynamic cast of %r' % (t,))

def unbool(x):
    """the truth value behind an integer 0/1"""
    if is_z(x) and x.sort() == Int and z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)) and x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0: return x.arg(0)
    return x
def denominators(c):
    out = []; st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x): continue      # denominators under quantifiers carry no fact
        if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): out.append(x.arg(1))
        st += x.children()
    return out
def heavy(c):
    from . import algebra
    if isinstance(c, bool): return False
    if algebra.has_mul(c): return True
    st = [c]
    while st:
        x = st.pop()
        if z3.is_eq(x):
            if x.children()[0].sort() == Real: return True
        elif x.sort() == BoolS: st += x.children()
    return False
def is_vec_t(t):
    a = targs_of(strip_t(t))
    return len(a) > 2 and a[2] == '1'
def self_enum(t): return False
