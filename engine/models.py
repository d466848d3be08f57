"""Assumed contracts of the standard library, Boost.Multiprecision and Eigen (the trusted library models)."""
import z3
from fractions import Fraction
from .symex import *

UF1 = {}
def uf(name, n=1):
    k = (name, n)
    if k not in UF1: UF1[k] = z3.Function(name+'_', *([Real]*n+[Real]))
    return UF1[k]
TRANS = {'exp','log','sin','cos','tan','asin','acos','atan','sqrt','sinh','cosh','tanh','log10','log2'}
def apply_trans(s, n, v):
    if isinstance(v, Mat): raise Unsupported('trans of matrix')
    v = toz(v, Real) if not (is_num(v)) else z3.RealVal(v)
    return uf(n)(v)
def ipow(s, b, e):
    """integer power of a field element: pw(b,e) with unrolling for small constant exponents"""
    if is_z(e): e2 = z3.simplify(e); e = e2.as_long() if z3.is_int_value(e2) else e
    if isinstance(e, Fraction) and e.denominator == 1: e = int(e)
    if isinstance(e, int):
        if 0 <= e <= 6:
            r = Fraction(1)
            for _ in range(e): r = s.mul(r, b)
            return r
        if -6 <= e < 0: return s.div(Fraction(1), ipow(s, b, -e))
    return None
PW = z3.Function('ipow_', Real, Int, Real)      # b^e, e integer
PWR = z3.Function('cpow_', Real, Real, Real)    # principal power
def power(s, b, e):
    r = ipow(s, b, e)
    if r is not None: return r
    if isinstance(e, int) or (is_z(e) and e.sort() == Int):
        b = toz(b, Real); e = toz(e, Int)
        for c in (z3.Implies(e == 0, PW(b, e) == 1), z3.Implies(e == 1, PW(b, e) == b), z3.Implies(e == 2, PW(b, e) == b*b), z3.Implies(e == -1, PW(b, e) == 1/b)): s.fact(c)
        return PW(b, e)
    return PWR(toz(b, Real), toz(e, Real))

def install(s):
    M = s.models
    M['__assert_fail'] = lambda s, e, f: (_ for _ in ()).throw(AssertEx(e['l']))
def val(s, e): return s.rv(e)
def iters(v): return isinstance(v, Iter)

NOEFFECT = ('operator<<', 'endl', 'str', 'what', 'name', 'c_str', 'flush', 'setprecision', 'precision_string')

def generic(s, f, this, args, e, op):
    q = f['q']; n = f['n']; cls = f.get('cls', '')
    s.stats['models'].add(q.split('<')[0] if not q.startswith('std::operator') else q)
    # ------------------------------------------------ streams / strings
    if n in ('operator<<', 'endl') or cls.startswith('std::basic_ostream') or cls.startswith('std::basic_stringstream') or cls.startswith('std::basic_string') or cls.startswith('std::type_info'):
        if n == 'operator=' : return this
        for a in args:
            try: s.lv(a)
            except Unsupported: pass
        return this if n == 'operator<<' and this is not None else Opaque('stream')
    # ------------------------------------------------ shared_ptr
    if cls.startswith('std::shared_ptr') or cls.startswith('std::__shared_ptr') or cls.startswith('std::weak_ptr') or cls.startswith('std::unique_ptr'):
        p = this.get()
        if n == 'operator->': return RawPtr(s.deref(p)) if isinstance(p, Ptr) else p
        if n == 'operator*': return Val(s.deref(p))
        if n == 'get': return RawPtr(p.target)
        if n == 'lock': return Ptr(p.target)
        if n == 'operator bool': return s.nonnull(p)
        if n == 'operator=':
            v = s.rv(args[0]); this.set(Ptr(v.target) if isinstance(v, Ptr) else v); return this
        if n == 'reset':
            v = s.rv(args[0]) if args else Ptr(None); this.set(Ptr(v.target)); return None
        if n == 'swap':
            c = s.lv(args[0]); a, b = this.get(), c.get(); this.set(b); c.set(a); return None
        if n == 'use_count': return s.fresh('use_count', Int)
    if n in ('dynamic_pointer_cast',) and q.startswith('std::'):
        v = s.rv(args[0]); t = strip_t(f['targs'][0]); return s.dyncast(v, t)
    if n in ('static_pointer_cast', 'const_pointer_cast') and q.startswith('std::'): return s.rv(args[0])
    if n == 'shared_from_this' and q.startswith('std::'):
        o = this.get(); return Ptr(o)
    if n == 'make_shared' and q.startswith('std::'):
        t = strip_t(f['targs'][0])
        raise Unsupported('make_shared')
    if cls.startswith('std::reference_wrapper'): return this
    # ------------------------------------------------ utilities
    if q in ('std::move', 'std::forward', 'std::addressof', 'std::as_const'): return s.lv(args[0])
    if q == 'std::swap' or (n == 'swap' and this is None):
        a, b = s.lv(args[0]), s.lv(args[1]); x, y = a.get(), b.get(); a.set(y); b.set(x); return None
    if q in ('std::max', 'std::min', 'boost::multiprecision::max', 'boost::multiprecision::min') and len(args) == 2:
        a, b = s.rv(args[0]), s.rv(args[1])
        c = s.lt(a, b) if n == 'max' else s.lt(b, a)
        if isinstance(c, bool): return b if c else a
        a, b = s.num2(a, b); return z3.If(c, toz(b), toz(a))
    if q == 'std::get':
        c = s.lv(args[0]); t = c.get()
        ta = f['targs'][0]
        if isinstance(t, Tup):
            if ta.isdigit(): return t.cells[int(ta)]
            w = strip_t(ta)
            for tt, cc in zip(t.types, t.cells):
                if strip_t(tt) == w: return cc
            # compare up to default template arguments
            for tt, cc in zip(t.types, t.cells):
                if strip_t(tt).replace(' ', '') == w.replace(' ', ''): return cc
            raise Unsupported('get<%s>' % ta[:80])
        if isinstance(t, Obj) and 'first' in t.f and ta.isdigit(): return t.f['first' if ta == '0' else 'second']
        raise Unsupported('std::get on %r' % (t,))
    if q in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
        tp = Tup.__new__(Tup); tp.types = f.get('targs', []); tp.cells = [s.lv(a) if q == 'std::tie' else Cell(s, s.rv(a)) for a in args]; return tp
    if q == 'std::make_pair':
        o = Obj(s, f['ret']); o.f['first'] = Cell(s, s.rv(args[0])); o.f['second'] = Cell(s, s.rv(args[1])); return o
    if cls.startswith('std::pair') and n == 'operator=':
        v = s.rv(args[0]); o = this.get(); o.cell('first').set(s.copyval(v.cell('first').get())); o.cell('second').set(s.copyval(v.cell('second').get())); return this
    if cls.startswith('std::tuple') and n == 'operator=':
        v = s.rv(args[0]); o = this.get()
        if isinstance(v, Obj): v = [v.cell('first'), v.cell('second')]
        else: v = v.cells
        vals = [s.copyval(c.get()) for c in v]
        for c, x in zip(o.cells, vals): c.set(x)
        return this
    # ------------------------------------------------ vectors
    if cls.startswith('std::vector<') or cls.startswith('std::array<') or cls.startswith('std::initializer_list<') or cls.startswith('std::deque<'):
        return vector_method(s, f, this, args, e, n)
    if cls.startswith('std::_Bit_reference') or 'Bit_iterator' in cls or cls.startswith('std::_Bit_const_iterator') or cls.startswith('__gnu_cxx::__normal_iterator') or 'std::reverse_iterator' in cls:
        v = this.get()
        if n == 'operator bool': return this.get()
        if n == 'operator=':
            x = s.rv(args[0]); this.set(x); return this
        if n == 'operator*': return s.seq_at(v.seq, v.i)
        if n == 'operator->':
            x = s.seq_at(v.seq, v.i).get(); return RawPtr(x) if isinstance(x, (Obj, ANode)) else x
        if n in ('operator++', 'operator--'):
            d = 1 if n == 'operator++' else -1
            new = Iter(v.seq, s.add(v.i, d)); this.set(new)
            return v if args else this
        if n in ('operator+', 'operator-'):
            x = s.rv(args[0]); return s.iter_op(n[-1], v, x)
        if n in ('operator+=', 'operator-='):
            x = s.rv(args[0]); this.set(Iter(v.seq, s.add(v.i, x) if n == 'operator+=' else s.sub(v.i, x))); return this
        if n == 'operator[]':
            x = s.rv(args[0]); return s.seq_at(v.seq, s.add(v.i, x))
        if n in ('operator==', 'operator!=', 'operator<'):
            return s.iter_op(n[8:], v, s.rv(args[0]))
    if q.startswith('__gnu_cxx::operator') or (q.startswith('std::operator') and args and 'iterator' in str(f['pt'][0])):
        return s.iter_op(n[8:], s.rv(args[0]), s.rv(args[1]))
    if q in ('std::begin', 'std::cbegin'): return Iter(s.lv(args[0]), 0)
    if q in ('std::end', 'std::cend'): c = s.lv(args[0]); return Iter(c, s.seq_size(c.get()))
    if q == 'std::distance': return s.iter_op('-', s.rv(args[1]), s.rv(args[0]))
    if q == 'std::for_each':
        a, b = s.rv(args[0]), s.rv(args[1]); fn = s.rv(args[2])
        ctr = Cell(s, a.i, 'for_each')
        def step():
            s.call_lambda(fn, [s.seq_at(a.seq, ctr.get())]); ctr.set(s.add(ctr.get(), 1))
        s.loop(('fe', e['l'], s.frames[-1]['key']), lambda: s.lt(ctr.get(), b.i), step); return fn
    if q == 'std::accumulate':
        a, b = s.rv(args[0]), s.rv(args[1]); acc = Cell(s, s.coerce(s.rv(args[2]), args[2]['t']), 'acc')
        fn = s.rv(args[3]) if len(args) > 3 else None
        ctr = Cell(s, a.i, 'accumulate')
        def step():
            x = s.seq_at(a.seq, ctr.get())
            if fn is None: acc.set(s.add(acc.get(), x.get()))
            elif isinstance(fn, Lam): acc.set(s.call_lambda(fn, [acc, x]))
            else: raise Unsupported('accumulate functor')
            ctr.set(s.add(ctr.get(), 1))
        s.loop(('acc', e['l'], s.frames[-1]['key']), lambda: s.lt(ctr.get(), b.i), step); return acc.get()
    if q == 'std::transform' and len(args) == 4:
        a, b, d = s.rv(args[0]), s.rv(args[1]), s.rv(args[2]); fn = s.rv(args[3])
        ctr = Cell(s, 0, 'transform')
        if not isinstance(fn, Lam): raise Unsupported('transform functor')
        def step():
            r = s.call_lambda(fn, [s.seq_at(a.seq, s.add(a.i, ctr.get()))])
            if isinstance(r, (Cell, FnCell, Val)): r = r.get()
            s.seq_at(d.seq, s.add(d.i, ctr.get())).set(r); ctr.set(s.add(ctr.get(), 1))
        s.loop(('tr', e['l'], s.frames[-1]['key']), lambda: s.lt(s.add(a.i, ctr.get()), b.i), step); return d
    if q in ('std::any_of', 'std::all_of', 'std::none_of'):
        a, b = s.rv(args[0]), s.rv(args[1]); fn = s.rv(args[2])
        ctr = Cell(s, a.i, q); res = Cell(s, q != 'std::any_of', 'res')
        def step():
            r = s.call_lambda(fn, [s.seq_at(a.seq, ctr.get())])
            hit = s.branch(s.truth(r))
            if q == 'std::any_of' and hit: res.set(True); raise BreakEx()
            if q == 'std::all_of' and not hit: res.set(False); raise BreakEx()
            if q == 'std::none_of' and hit: res.set(False); raise BreakEx()
            ctr.set(s.add(ctr.get(), 1))
        s.loop(('anyall', e['l'], s.frames[-1]['key']), lambda: s.lt(ctr.get(), b.i), step); return res.get()
    # ------------------------------------------------ numbers
    if q in ('std::numeric_limits<double>::epsilon',): return Fraction(1, 2**52)
    if n == 'highest' and 'NumTraits' in q and not args: return z3.Real('highest')
    if q.startswith('std::numeric_limits<') and n in ('max', 'min', 'lowest'):
        t = targs_of(q)[0]
        if t in INT_T:
            sg, w = INT_T[t]
            return ((2**(w-1)-1) if sg else 2**w-1) if n == 'max' else (-(2**(w-1)) if sg else 0)
        return uf('limits_'+n, 1)(z3.RealVal(0))
    if n == 'quiet_NaN': return s.fresh('nan', Real)
    isnum = cls.startswith('std::complex<') or cls.startswith('boost::multiprecision::number<') or cls.startswith('boost::multiprecision::detail::expression')
    if isnum and this is not None:
        v = this.get()
        if n == 'operator=':
            x = s.rv(args[0]); this.set(s.coerce(x, 'double') if not is_bigint_t(cls) else x); return this
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            x = s.rv(args[0]); this.set(s.binop(n[8], v, x, cls)); return this
        if n == 'precision':
            if args:
                n = s.rv(args[0])
                if hasattr(s.theory, 'set_precision'): s.theory.set_precision(s, this, n)
                return None
            return s.precision_of(this) if hasattr(s, 'precision_of') else s.fresh('prec', Int)
        if n in ('real', 'imag'):
            if args:
                raise Unsupported('complex part assignment')
            return part(s, n, v)
        if n.startswith('operator ') or n == 'convert_to': return conv_num(s, v, f['ret'])
        if n == 'str': return Opaque('str')
        if n == 'is_zero': return s.eq(v, 0)
        if n in ('assign',):
            x = s.rv(args[0]); this.set(s.coerce(x, 'double')); return this
        if n in ('operator++', 'operator--'):
            old = this.get(); this.set(s.add(old, 1 if n == 'operator++' else -1)); return old if args else this
    if n == 'default_precision':
        if args: s.rv(args[0]); return None
        return s.fresh('default_precision', Int)
    if op is not None or n.startswith('operator'):
        o = n[8:]
        if o in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=', '%') and (q.startswith('std::') or q.startswith('boost::multiprecision') or q.startswith('Eigen')):
            if len(args) == 2 and this is None: return s.binop(o, s.rv(args[0]), s.rv(args[1]), f['ret'] if o in '+-*/%' else 'bool')
            if len(args) == 1 and this is None:
                return s.neg(s.rv(args[0])) if o == '-' else s.rv(args[0])
            if len(args) == 1 and this is not None: return s.binop(o, this.get(), s.rv(args[0]), f['ret'])
            if not args and this is not None and o == '-': return s.neg(this.get())
    if this is None and n in ('real', 'imag') and args: return part(s, n, s.rv(args[0]))
    if this is None and n in TRANS and args: return apply_trans(s, n, s.rv(args[0]))
    if this is None and n == 'pow' and len(args) == 2:
        return power(s, s.rv(args[0]), s.rv(args[1]))
    if this is None and n in ('abs', 'fabs'):
        v = s.rv(args[0])
        t = strip_t(args[0]['t'])
        if 'complex' in t: return absv(s, v)
        if is_num(v): return abs(v)
        return z3.If(v >= 0, v, -v)
    if this is None and n == 'norm' and args: v = s.rv(args[0]); return s.mul(absv(s, v), absv(s, v))
    if this is None and n in ('round', 'floor', 'ceil', 'trunc') and args:
        v = s.rv(args[0])
        if is_num(v):
            import math
            v = Fraction(v); r = {'round': lambda: (math.floor(abs(v)+Fraction(1, 2)))*(1 if v >= 0 else -1), 'floor': lambda: math.floor(v), 'ceil': lambda: math.ceil(v), 'trunc': lambda: int(v)}[n]()
            return Fraction(r)
        if v.sort() == Int: return v
        if n == 'floor': return z3.ToReal(z3.ToInt(v))
        if n == 'ceil': return -z3.ToReal(z3.ToInt(-v))
        if n == 'trunc': return z3.If(v >= 0, z3.ToReal(z3.ToInt(v)), -z3.ToReal(z3.ToInt(-v)))
        h = z3.RealVal(Fraction(1, 2))
        return z3.If(v >= 0, z3.ToReal(z3.ToInt(v+h)), -z3.ToReal(z3.ToInt(h-v)))
    if this is None and n in ('isnan', 'isinf') : return uf(n)(toz(s.rv(args[0]), Real)) > 0
    if this is None and n == 'conj': return uf('conj')(toz(s.rv(args[0]), Real))
    if this is None and n == 'arg' and len(args) == 1: return uf('arg')(toz(s.rv(args[0]), Real))
    if this is None and n == 'polar': return uf('polar', 2)(toz(s.rv(args[0]), Real), toz(s.rv(args[1]), Real)) if len(args) == 2 else Unsupported
    # ------------------------------------------------ Eigen
    if cls.startswith('Eigen::') or q.startswith('Eigen::'):
        return eigen(s, f, this, args, e, n, op)
    # ------------------------------------------------ maps
    if cls.startswith('std::map<') or cls.startswith('std::unordered_map<'):
        m = this.get()
        if n in ('operator[]', 'at', 'find'):
            k = s.rv(args[0])
            for kk, c in m.items:
                if s.branch(s.eq(k, kk)): return c if n != 'find' else Iter(m, c)
            if n == 'at': raise ThrowEx('std::out_of_range', e['l'])
            if m.base is not None: raise Unsupported('symbolic map')
            c = Cell(s, s.zero_of(m.vt)); m.items = m.items + [(k, c)]; return c
        if n == 'clear': this.set(MapVal(s, m.vt)); return None
    if cls.startswith('std::function<') and n == 'operator()':
        fn = this.get()
        if isinstance(fn, Lam): return s.call_lambda(fn, [s.lv(a) for a in args])
        if hasattr(fn, 'call'): return fn.call(s, f, this, dict(e, args=args))
    return NotImplemented

def part(s, n, v):
    if is_num(v): return Fraction(v) if n == 'real' else Fraction(0)
    f = uf('re' if n == 'real' else 'im'); return f(toz(v, Real))
def absv(s, v):
    if is_num(v): return abs(v)
    return uf('abs')(toz(v, Real))
def conv_num(s, v, t):
    t = strip_t(t)
    if t in INT_T:
        if is_num(v): return int(v)
        if v.sort() == Int: return v
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if t == 'bool': return s.truth(v)
    if isinstance(v, int): return Fraction(v)
    if is_z(v) and v.sort() == Int: return z3.ToReal(v)
    return v

def vector_method(s, f, this, args, e, n):
    q = this.get()
    if isinstance(q, Opaque): return Opaque('vec')
    if isinstance(q, Recs): return q.method(s, this, args, n)
    if not isinstance(q, Seq): raise Unsupported('vector method %s on %r' % (n, q))
    if n == 'size': return q.size()
    if n == 'empty': return s.eq(q.size(), 0)
    if n in ('operator[]', 'at'):
        i = s.rv(args[0])
        return s.seq_at(this, i)
    if n in ('front',): return s.seq_at(this, 0)
    if n in ('back',): return s.seq_at(this, s.sub(q.size(), 1))
    if n in ('push_back', 'emplace_back'):
        v = s.rv(args[0])
        if isinstance(v, (Mat, Seq)) and getattr(s.theory, 'push', None): s.theory.push(s, this, v); return None
        if getattr(s.theory, 'fold_ptr', False) and 'shared_ptr<' in q.et and is_z(q.base_n) and not q.tail and isinstance(v, Ptr):
            this.set(joined(s, q, 1, lambda i: v)); return None
        if strip_t(q.et) == 'bool' or is_number_t(q.et): v = s.coerce(v, q.et)
        n2 = Seq(s, q.et, q.base_n, q.elem, list(q.tail), q.sid); n2.over = q.over
        n2.tail.append(Cell(s, s.copyval(v) if not isinstance(v, Ptr) else v)); this.set(n2); return None
    if n == 'pop_back':
        if q.tail:
            n2 = Seq(s, q.et, q.base_n, q.elem, list(q.tail[:-1]), q.sid); n2.over = q.over; this.set(n2); return None
        raise Unsupported('pop_back')
    if n == 'clear': this.set(Seq(s, q.et)); return None
    if n == 'swap': c = s.lv(args[0]); a, b = this.get(), c.get(); this.set(b); c.set(a); return None
    if n in ('begin', 'cbegin'): return Iter(this if not isinstance(this, Val) else Val(q), 0)
    if n in ('end', 'cend'): return Iter(this, q.size())
    if n == 'operator=':
        v = s.rv(args[0])
        if not isinstance(v, Seq): raise Unsupported('vector =')
        this.set(v.clone()); return this
    if n == 'reserve': s.rv(args[0]); return None
    if n == 'resize':
        k = s.rv(args[0])
        if isinstance(k, int) and isinstance(q.base_n, int) and q.base_n == 0:
            t = list(q.tail[:k])
            while len(t) < k: t.append(Cell(s, s.rv(args[1]) if len(args) > 1 else s.zero_of(q.et)))
            this.set(Seq(s, q.et, tail=t)); return None
        z = s.rv(args[1]) if len(args) > 1 else s.zero_of(q.et)
        if isinstance(q.base_n, int) and q.base_n == 0 and not q.tail:
            this.set(Seq(s, q.et, k, lambda i, z=z: z)); return None
        if s.entails(toz(s.eq(q.size(), k))): return None
        if not q.tail and (is_z(z) or is_num(z) or isinstance(z, bool)):
            old = q.elem; bn = q.base_n
            this.set(Seq(s, q.et, k, lambda i: z3.If(toz(s.lt(i, bn)), toz(old(i)), toz(z, toz(old(i)).sort())))); return None
        if not q.tail and 'shared_ptr<' in q.et and hasattr(s.theory, 'term_of'):
            try: terms = [s.theory.term_of(s, v) for _, v in q.over]
            except Exception: raise Unsupported('resize of pointers')
            old, bn, ov = q.elem, q.base_n, [(j, t) for (j, _), t in zip(q.over, terms)]; nul = s.theory.term_of(s, Ptr(None))
            def el(i):
                t = s.theory.term_of(s, old(i))
                for j, x in ov: t = z3.If(toz(i, Int) == toz(j, Int), x, t)
                return Ptr(ANode(z3.If(toz(i, Int) < toz(bn, Int), t, nul)))
            this.set(Seq(s, q.et, k, el)); return None
        raise Unsupported('resize')
    if n == 'assign' and len(args) == 2:
        a, b = s.rv(args[0]), s.rv(args[1])
        if is_num(a) or is_z(a):
            if isinstance(a, int): this.set(Seq(s, q.et, tail=[Cell(s, b) for _ in range(a)])); return None
            this.set(Seq(s, q.et, a, lambda i: b)); return None
    if n == 'insert' and len(args) == 3 and getattr(s.theory, 'fold_ptr', False) and 'shared_ptr<' in q.et and not strip_t(q.et).startswith('std::vector<'):
        pos, a, b = [s.rv(x) for x in args]; src = a.seq.get() if not isinstance(a.seq, Seq) else a.seq
        if s.entails(toz(s.eq(pos.i, q.size()))) and s.entails(toz(s.eq(a.i, 0))) and s.entails(toz(s.eq(b.i, src.size()))):
            this.set(joined(s, q, src.size(), lambda i: s.seq_at(src, i).get() if not is_z(i) else src.elem(i))); return pos
    if n == 'insert' and len(args) == 3 and strip_t(q.et).startswith('std::vector<') and getattr(s.theory, 'fold_ptr', False):
        pos, a, b = [s.rv(x) for x in args]; src = a.seq.get() if not isinstance(a.seq, Seq) else a.seq
        if not (s.entails(toz(s.eq(pos.i, q.size()))) and s.entails(toz(s.eq(a.i, 0))) and s.entails(toz(s.eq(b.i, src.size())))) or q.tail or q.over or src.tail or src.over: raise Unsupported('insert of ranges')
        th, n0, et = s.theory, toz(q.size(), Int), targs_of(strip_t(q.et))[0]; old, new = q.elem, src.elem
        def el(g):
            g = toz(g, Int); x, y = old(g), new(g-n0)
            if not 'shared_ptr<' in et: raise Unsupported('insert of ranges')
            r = Seq(s, et, z3.If(g < n0, toz(x.size(), Int), toz(y.size(), Int)), lambda i: Ptr(ANode(z3.If(g < n0, th.term_of(s, x.elem(i)), th.term_of(s, y.elem(i))))))
            if hasattr(x, 'g') and hasattr(y, 'g'): r.g = z3.If(g < n0, x.g, y.g)
            return r
        this.set(Seq(s, q.et, n0+toz(src.size(), Int), el)); return pos
    if n == 'data': return CellPtr(this)
    raise Unsupported('vector::'+n)
def joined(s, q, n, src):
    """sequence of pointers q followed by n more elements src(0), src(1), ..."""
    th = s.theory; old, bn = q.elem, toz(q.size(), Int); ov = [(toz(i, Int), th.term_of(s, v)) for i, v in q.over]; tail = [(toz(s.add(q.base_n, j), Int), th.term_of(s, c.get())) for j, c in enumerate(q.tail)]
    def el(i):
        i = toz(i, Int); r = th.term_of(s, src(i-bn))
        if old is not None: r = z3.If(i < bn, th.term_of(s, old(i)), r)
        for j, x in ov+tail: r = z3.If(i == j, x, r)
        return Ptr(ANode(r))
    return Seq(s, q.et, bn+toz(n, Int), el)

def eigen(s, f, this, args, e, n, op):
    v = this.get() if this is not None else None
    if n == 'operator()' or n in ('coeff', 'coeffRef'):
        ix = [s.rv(a) for a in args]
        return s.mat_at(this, ix[0], ix[1] if len(ix) > 1 else 0)
    if n == 'operator[]': return s.mat_at(this, s.rv(args[0]), 0)
    if isinstance(v, Mat):
        if n == 'rows': return v.rows
        if n == 'cols': return v.cols
        if n == 'size': return s.mat_size(v)
        if n == 'resize':
            ix = [s.rv(a) for a in args]
            r = ix[0]; c = ix[1] if len(ix) > 1 else 1
            g = s.freshfn('resized', Int, Int, Real)
            if v.srt is not None: raise Unsupported('resize of a matrix of integers or expressions')
            this.set(Mat(r, c, lambda i, j: g(toz(i, Int), toz(j, Int)))); return None
        if n == 'operator=':
            x = s.rv(args[0])
            if isinstance(x, Mat):
                if v.srt is not None and x.srt is None: x = Mat(x.rows, x.cols, x.elem if v.srt != Int else lambda i, j, o=x.elem: s.as_int(o(i, j)), v.srt)
                this.set(x); return this
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            x = s.rv(args[0]); this.set(s.mat_op(n[8], v, x)); return this
        if n in ('operator+', 'operator-', 'operator*', 'operator/'):
            if args: return s.mat_op(n[8], v, s.rv(args[0]))
            return s.neg(v)
        if n in ('setZero', 'setOnes', 'fill', 'setConstant'):
            c = Fraction(0) if n == 'setZero' else Fraction(1) if n == 'setOnes' else s.coerce(s.rv(args[0]), 'double')
            this.set(Mat(v.rows, v.cols, lambda i, j: c)); return this
        if n in ('eval', 'derived', 'const_cast_derived', 'array', 'matrix', 'noalias'): return this
        if n == 'transposeInPlace': this.set(Mat(v.cols, v.rows, lambda i, j: v.elem(j, i))); return None
        if n == 'transpose': return Mat(v.cols, v.rows, lambda i, j: v.elem(j, i))
        if n == 'col':
            k = s.rv(args[0])
            def st(nv):
                m = this.get(); old = m.elem
                def el(i, j):
                    c = s.eq(j, k)
                    if isinstance(c, bool): return nv.elem(i, 0) if c else old(i, j)
                    return z3.If(c, toz(nv.elem(i, 0), Real), toz(old(i, j), Real))
                this.set(Mat(m.rows, m.cols, el))
            return FnCell(lambda: (lambda m: Mat(m.rows, 1, lambda i, j: m.elem(i, k)))(this.get()), st)
        if n == 'row':
            k = s.rv(args[0])
            def st(nv):
                m = this.get(); old = m.elem; so = m.srt if m.srt is not None else Real; part = (lambda j: nv.elem(j, 0)) if (nv.cols == 1 if not is_z(nv.cols) else s.entails(nv.cols == 1)) else (lambda j: nv.elem(0, j))
                def el(i, j):
                    c = s.eq(i, k)
                    if isinstance(c, bool): return part(j) if c else old(i, j)
                    return z3.If(c, toz(part(j), so), toz(old(i, j), so))
                this.set(Mat(m.rows, m.cols, el, m.srt))
            return FnCell(lambda: (lambda m: Mat(1, m.cols, lambda i, j: m.elem(k, j), m.srt))(this.get()), st)
        if n in ('head', 'tail', 'segment'):
            ix = [s.rv(a) for a in args]
            off, ln = (0, ix[0]) if n == 'head' else (s.sub(v.rows, ix[0]), ix[0]) if n == 'tail' else (ix[0], ix[1])
            def st(nv):
                m = this.get(); old = m.elem
                def el(i, j):
                    c = s.and_(s.le(off, i), s.lt(i, s.add(off, ln)))
                    x = nv.elem(s.sub(i, off), j)
                    if isinstance(c, bool): return x if c else old(i, j)
                    return z3.If(c, toz(x, Real), toz(old(i, j), Real))
                this.set(Mat(m.rows, m.cols, el))
            return FnCell(lambda: (lambda m: Mat(ln, 1, lambda i, j: m.elem(s.add(i, off), j)))(this.get()), st)
        if n.startswith('operator ') and toz(s.mat_size(v), Int).eq(z3.IntVal(1)): return v.elem(0, 0)
        if n in ('norm', 'squaredNorm', 'sum', 'maxCoeff', 'lpNorm'):
            if s.theory: return s.theory.mat_fn(s, n, v, f)
    if this is None and n == 'Identity' and len(args) == 2:
        ix = [s.rv(a) for a in args]; return Mat(ix[0], ix[1], lambda i, j: z3.If(toz(i, Int) == toz(j, Int), z3.RealVal(1), z3.RealVal(0)))
    if this is None and n in ('Zero', 'Ones', 'Constant') and args and 'Matrix<' in f['q']:
        ix = [s.rv(a) for a in args]; c = Fraction(0 if n == 'Zero' else 1) if n != 'Constant' else s.coerce(ix.pop(), 'double')
        if 'Matrix<int' in f['q'] and isinstance(c, Fraction): return Mat(ix[0], ix[1] if len(ix) > 1 else 1, lambda i, j: int(c), Int)
        return Mat(ix[0], ix[1] if len(ix) > 1 else 1, lambda i, j: c)
    if this is None and n in ('operator==', 'operator!=') and len(args) == 2:
        a, b = s.rv(args[0]), s.rv(args[1])
        if isinstance(a, Mat) and isinstance(b, Mat): r = s.mat_eq(a, b); return r if n == 'operator==' else s.not_(r)
    if isinstance(v, Mat) and n in ('operator==', 'operator!=') and len(args) == 1:
        b = s.rv(args[0])
        if isinstance(b, Mat): r = s.mat_eq(v, b); return r if n == 'operator==' else s.not_(r)
    if this is None and n.startswith('operator') and len(args) == 2:
        return s.mat_op(n[8:], s.rv(args[0]), s.rv(args[1]))
    if s.theory:
        return s.theory.eigen(s, f, this, args, e, n)
    return NotImplemented
