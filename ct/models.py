"""Models of standard library functions, keyed by their definition path.

Each model takes a Call and returns a list of (state, value), or None to let the interpreter inline the
body. A model that needs to split first raises Fork (via Call.decide); the call is then re-executed."""
import re
from dom import *
import interp as IT
from interp import Fork, U

MODELS = {}
PATTERNS = []
def model(*names):
    def f(fn):
        for n in names: MODELS[n] = fn
        return fn
    return f
def pattern(rx):
    def f(fn):
        PATTERNS.append((re.compile(rx), fn)); return fn
    return f
_cache = {}
def find(inst):
    r = _cache.get(inst.defn, 0)
    if r != 0 and r is not None: return r[0](r[1]) if r[1] else r[0]
    if r is None: return None
    if inst.user and not inst.defn.startswith('<ct_harness::Any'):
        _cache[inst.defn] = None
        return None
    fn = MODELS.get(inst.defn)
    if fn:
        _cache[inst.defn] = (fn, None); return fn
    for rx, fn in PATTERNS:
        m = rx.match(inst.defn)
        if m:
            g = (lambda f, mm: (lambda c: f(c, mm)))(fn, m)
            _cache[inst.defn] = (g, None); return g
    _cache[inst.defn] = None
    return None

# ---------------------------------------------------------------- helpers
class Call:
    __slots__ = ('I', 'st', 'fr', 'inst', 'args', 'dty', 'x', 'dest', 'target')
    def __init__(s, I, st, fr, inst, args, dty, x, dest, target):
        s.I = I; s.st = st; s.fr = fr; s.inst = inst; s.args = args; s.dty = dty; s.x = x; s.dest = dest; s.target = target
    def argty(s, i): return s.I.op_ty(s.fr, s.x['args'][i])
    def decide(s, e):
        F = s.st.F
        e = F.rb(e)
        if e in (0, 1): return e == 1
        outs = []
        for v in (0, 1):
            n = s.st.copy()
            if n.F.assume_bit(e, v): outs.append(n)
        raise Fork(outs)
    def ge(s, l): return s.decide(s.st.F.cond('ge', l))
    def en(s, name, *fields, t=None):
        t = s.dty if t is None else t
        for i, v in enumerate(s.I.P.types[t]['variants']):
            if v['name'] == name: return ('en', t, i, tuple(fields))
        raise KeyError(name)
    def ret(s, v): return [(s.st, v)]
    def unit(s): return [(s.st, ('agg', s.dty, ()))]
    def int(s, l, t=None):
        T = s.I.P.types[s.dty if t is None else t]
        return ('i', s.st.F.norm(l), T['bits'], T['signed'])
    def top(s, what='m', t=None): return s.I.mk_top(s.dty if t is None else t, s.I.origin(what))
    def fieldty(s, variant, i=0):
        for v in s.I.P.types[s.dty]['variants']:
            if v['name'] == variant: return v['fields'][i][1]
    def place(s, i=0):
        """(obj, path) of a pointer argument"""
        o, p, w = s.I.deref(s.st, s.args[i])
        return o, p
    def load(s, i=0):
        o, p, w = s.I.deref(s.st, s.args[i])
        if w is not None: return ('sl', o, p) + w
        v = s.I.read(s.st, o, p)
        if v[0] == 'uninit': 
            T = s.I.P.types[s.argty(i)]
            if T['k'] in ('ref', 'ptr'): v = s.I.mk_top(T['to'], s.I.origin('un'))
        return v
    def store(s, v, i=0):
        o, p = s.place(i)
        s.I.write(s.st, o, p, v)

def as_slice(I, st, v):
    """view a value as ('sl', obj, path, start, end, kind)"""
    k = v[0]
    if k == 'sl': return v
    if k == 'bsl': return as_slice(I, st, v[1])
    if k == 'vec': return ('sl', v[1], (), ZERO, v[2], 's')
    if k == 'box': return as_slice(I, st, ('p', v[1], ()))
    if k == 'p':
        w = I.read(st, v[1], v[2])
        if w[0] == 'seq': return ('sl', v[1], v[2], ZERO, w[2], 's')
        if w[0] in ('vec', 'sl', 'bsl', 'box', 'p'): return as_slice(I, st, w)
    return None
def sllen(sl): return lsub(sl[4], sl[3])
def seqof(I, st, sl): return I.read(st, sl[1], sl[2])

def content(I, st, v):
    """an identity for the bytes of a slice-like value: equal identities mean equal contents"""
    sl = as_slice(I, st, v)
    if sl is None: return None
    F = st.F
    q = seqof(I, st, sl)
    a, b = F.norm(sl[3]), F.norm(sl[4])
    if q[0] != 'seq': return None
    tag = q[3]; el = q[4]
    while tag[0] == 'sub' and not el:
        a = F.norm(ladd(a, tag[2])); b = F.norm(ladd(b, tag[2])); tag = tag[1]
    if el:
        n = F.const(lsub(b, a))
        if n is not None and n <= 64:
            es = []
            for i in range(n):
                e = I.elem(st, q, laddc(a, i))
                es.append(F.norm(e[1]) if e[0] == 'i' else e)
            return ('els', tuple(es))
        return ('mix', tag, tuple((F.norm(l), x) for l, x in el), a, b)
    if tag[0] == 'const':
        ca, cb = F.const(a), F.const(b)
        if ca is not None and cb is not None: return ('els', tuple(lc(x) for x in tag[1][ca:cb]))
    return ('tag', tag, a, b)

def copyseq(I, st, sl, et):
    """a seq value with the contents of a slice"""
    F = st.F
    q = seqof(I, st, sl)
    n = F.norm(sllen(sl))
    if q[0] != 'seq': return ('seq', et, n, I.freshtag(), (), None)
    a = F.norm(sl[3])
    tag = q[3]
    if tag[0] == 'sub': tag = ('sub', tag[1], F.norm(ladd(tag[2], a)))
    elif tag[0] in ('none', 'fill'): pass
    elif a != ZERO: tag = ('sub', tag, a)
    els = []
    for l, x in q[4]:
        d = F.norm(lsub(l, a))
        c = F.const(d)
        if c is not None and c < 0: continue
        els.append((d, x))
    init = q[5]
    if init is not None:
        if F.prove_ge(lsub(init, sl[4])): init = None
        else: init = F.norm(lsub(init, a))
    return ('seq', q[1], n, tag, tuple(els), init)

def newvec(I, st, q, cap=None):
    o = I.newobj(); st.mem[o] = q
    return ('vec', o, q[2], cap if cap is not None else q[2])

def elty(I, t):
    T = I.P.types[t]
    if T['k'] in ('ref', 'ptr'): return elty(I, T['to'])
    if T['k'] in ('slice', 'array'): return T['elem']
    if T['k'] == 'str': return I.P.u8()
    if T['k'] == 'adt':
        if T['name'].endswith('String') or T['name'].endswith('CStr'): return I.P.u8()
        if T['args']: return elty(I, T['args'][0]) if T['name'].endswith('Cow') or T['name'].endswith('Box') else T['args'][0]
    return None

def bytes_eq(I, st, a, b):
    """bit expression: contents equal (slice-like values)"""
    F = st.F
    x, y = as_slice(I, st, a), as_slice(I, st, b)
    if x is None or y is None: return 1 << atom(('eq', I.origin()))
    ca, cb = content(I, st, x), content(I, st, y)
    if ca is not None and ca == cb: return 1
    n, m = F.norm(sllen(x)), F.norm(sllen(y))
    if F.prove_ne(n, m): return 0
    cn, cm = F.const(n), F.const(m)
    k = cn if cn is not None else cm
    if k is not None and k <= 32:
        qx, qy = seqof(I, st, x), seqof(I, st, y)
        if qx[0] == 'seq' and qy[0] == 'seq':
            e = F.cond('eq', lsub(n, m))
            for i in range(k):
                if e == 0: break
                p, q = I.elem(st, qx, laddc(x[3], i)), I.elem(st, qy, laddc(y[3], i))
                if p[0] == 'i' and q[0] == 'i': e = band(e, F.cond('eq', lsub(p[1], q[1])))
                elif p[0] == 'b' and q[0] == 'b': e = band(e, F.rb(p[1] ^ q[1]) ^ 1)
                elif p != q: e = band(e, 1 << atom(('eq', str(p), str(q))))
            return e
    return F.rb(1 << atom(('eq',) + tuple(sorted((str(ca), str(cb))))))

# ---------------------------------------------------------------- panics and hints
@pattern(r'core::panicking::|std::rt::panic|std::rt::begin_panic|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|std::result::unwrap_failed|core::slice::index::slice_|alloc::raw_vec::(handle_error|capacity_overflow)|std::alloc::handle_alloc_error|core::str::slice_error_fail|core::cell::panic|std::process::(abort|exit)|std::option::(unwrap|expect)_failed')
def m_panic(c, m):
    n = c.inst.defn
    if n.startswith('core::panicking::assert_failed') and c.target is not None: return None
    kind = 'ub' if 'nounwind' in n else 'panic'
    c.I.ob(c.st, kind, False, n)
    return []
@model('std::hint::unreachable_unchecked', 'std::intrinsics::unreachable')
def m_unreach(c):
    c.I.ob(c.st, 'ub', False, 'unreachable_unchecked'); return []
@model('std::hint::assert_unchecked', 'std::intrinsics::assume')
def m_assume(c):
    v = c.args[0]
    e = c.st.F.rb(v[1]) if v[0] == 'b' else None
    c.I.ob(c.st, 'ub', e == 1, 'assert_unchecked')
    if e is not None and not c.st.F.assume_bit(e, 1): return []
    return c.unit()
@pattern(r'.*precondition_check$')
def m_pre(c, m): return c.unit()
@model('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited', 'std::intrinsics::assert_zero_valid', 'std::intrinsics::assert_mem_uninitialized_valid')
def m_nop(c): return c.unit()
@model('std::intrinsics::likely', 'std::intrinsics::unlikely', 'std::hint::black_box', 'std::intrinsics::black_box')
def m_id(c): return c.ret(c.args[0])
@model('std::mem::forget', 'std::mem::drop', 'std::ptr::drop_in_place', 'std::ptr::drop_glue')
def m_drop(c): return c.unit()
@model('std::mem::needs_drop', 'std::intrinsics::needs_drop')
def m_nd(c): return c.ret(('b', 1 << atom(('nd', c.I.origin()))))

# ---------------------------------------------------------------- memory
@model('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def m_ptrwrite(c):
    o, p = c.place(0)
    # raw write: the previous content is not dropped
    old = c.I.read(c.st, o, p)
    h = c.I.collect.get('ptr_write')
    if h: h(c, o, p, old)
    c.I.write(c.st, o, p, c.args[1])
    return c.unit()
@model('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read')
def m_ptrread(c): return c.ret(c.load(0))
@model('std::mem::replace', 'std::ptr::replace')
def m_replace(c):
    v = c.load(0); c.store(c.args[1]); return c.ret(v)
@model('std::mem::swap')
def m_swap(c):
    v, w = c.load(0), c.load(1); c.store(w, 0); c.store(v, 1); return c.unit()
@model('std::mem::size_of')
def m_sizeof(c):
    t = c.inst.args[0]
    if isinstance(t, dict): t = t.get('ty')
    if isinstance(t, int) and c.I.P.types[t].get('size') is not None: return c.ret(c.int(lc(c.I.P.types[t]['size'])))
    return None
@pattern(r'std::ptr::(?:const_ptr|mut_ptr)::<impl \*(?:const|mut) T>::(cast|cast_mut|cast_const|add|sub|offset|wrapping_add|is_null|offset_from|offset_from_unsigned|sub_ptr|as_ref|as_mut)$')
def m_ptr(c, m):
    k = m.group(1); v = c.args[0]
    if k in ('cast', 'cast_mut', 'cast_const'): return c.ret(c.I.cast(c.st, 'PtrToPtr', v, c.dty, None))
    if k in ('add', 'sub', 'offset', 'wrapping_add'):
        if v[0] == 'p' and v[2] and v[2][-1][0] == 'i': v = ('ep', v[1], v[2][:-1], v[2][-1][1], None)
        if v[0] == 'ep' and c.args[1][0] == 'i':
            i = ladd(v[3], c.args[1][1], -1 if k == 'sub' else 1)
            return c.ret(('ep', v[1], v[2], c.st.F.norm(i), v[4]))
        return c.ret(c.top('ptr'))
    if k == 'is_null': return c.ret(('b', 0) if v[0] != 'top' else ('b', 1 << atom(('null', c.I.origin()))))
    if k in ('offset_from', 'offset_from_unsigned', 'sub_ptr'):
        w = c.args[1]
        if v[0] == 'ep' and w[0] == 'ep' and v[1] == w[1]: return c.ret(c.int(lsub(v[3], w[3])))
        return c.ret(c.top('off'))
    return None
@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def m_frp(c):
    v, n = c.args[0], c.args[1]
    if v[0] == 'p' and v[2] and v[2][-1][0] == 'i': v = ('ep', v[1], v[2][:-1], v[2][-1][1], None)
    if v[0] == 'ep' and n[0] == 'i':
        e = ladd(v[3], n[1])
        ok = v[4] is not None and c.st.F.prove_ge(lsub(v[4], e)) and c.st.F.prove_ge(v[3])
        c.I.ob(c.st, 'ub', ok, 'from_raw_parts')
        return c.ret(('sl', v[1], v[2], v[3], c.st.F.norm(e), 's'))
    c.I.ob(c.st, 'ub', False, 'from_raw_parts')
    return c.ret(c.top('frp'))

# ---------------------------------------------------------------- integers
def bitsum(F, bs): 
    l = ZERO
    for b in bs: l = ladd(l, mkbits((F.rb(b),), 0))
    return l
def intbits(c, v):
    F = c.st.F
    bs, ext = F.bits(v[1]); bs = list(bs[:v[2]])
    return bs + [ext] * (v[2] - len(bs))
def lowbit(c, bs, w):
    """fork on the index of the first set bit in bs (list in scan order); w when none"""
    F = c.st.F
    outs = []; st = c.st.copy()
    for i, b in enumerate(bs):
        b = st.F.rb(b)
        if b == 0: continue
        n = st.copy() if b != 1 else st
        if n.F.assume_bit(b, 1): outs.append((n, i))
        if b == 1: return outs
        if not st.F.assume_bit(b, 0): return outs
    outs.append((st, w))
    return outs
@pattern(r'core::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$')
def m_num(c, m):
    I = c.I; F = c.st.F
    k = m.group(2); a = c.args[0] if c.args else None
    sg = m.group(1)[0] == 'i'
    w = 64 if m.group(1)[1:] == 'size' else int(m.group(1)[1:])
    mm = re.match(r'(checked|wrapping|saturating|overflowing|unchecked|strict)_(add|sub|mul|neg|shl|shr|div|rem|abs|add_signed|sub_unsigned|add_unsigned|add_signed)$', k)
    if mm and a[0] == 'i':
        mode, op = mm.groups()
        b = c.args[1] if len(c.args) > 1 else None
        if b is not None and b[0] != 'i': return None
        if op in ('shl', 'shr'):
            kk = F.const(b[1])
            if mode == 'wrapping':
                if kk is not None: return c.ret(('i', I.arith(c.st, 'Shl' if op == 'shl' else 'Shr', a[1], lc(kk & (w - 1)), w, sg), w, sg))
                # value by cases would explode: the amount is reduced modulo the width
                y = I.arith(c.st, 'BitAnd', b[1], lc(w - 1), 32, False)
                return c.ret(('i', I.arith(c.st, 'Shl' if op == 'shl' else 'Shr', a[1], y, w, sg), w, sg))
            ok = c.ge(laddc(lneg(b[1]), w - 1)) if mode in ('checked', 'strict') else True
            if mode == 'unchecked' : I.ob(c.st, 'ub', F.prove_ge(laddc(lneg(b[1]), w - 1)), k)
            r = ('i', I.arith(c.st, 'Shl' if op == 'shl' else 'Shr', a[1], b[1], w, sg), w, sg)
            if mode == 'checked': return c.ret(c.en('Some', r) if ok else c.en('None'))
            if mode == 'unchecked': return c.ret(r)
            return None
        if op in ('div', 'rem'):
            if mode == 'checked':
                if not c.decide(F.cond('eq', b[1]) ^ 1): return c.ret(c.en('None'))
                return c.ret(c.en('Some', ('i', I.arith(c.st, op.capitalize(), a[1], b[1], w, sg), w, sg)))
            return None
        if op == 'add' or op == 'add_signed' or op == 'add_unsigned': l = ladd(a[1], b[1])
        elif op == 'sub' or op == 'sub_unsigned': l = lsub(a[1], b[1])
        elif op == 'neg': l = lneg(a[1])
        elif op == 'mul':
            ca, cb = F.const(a[1]), F.const(b[1])
            if cb is not None: l = lscale(a[1], cb)
            elif ca is not None: l = lscale(b[1], ca)
            else:
                ra, rb_ = F.rng(F.norm(a[1])), F.rng(F.norm(b[1])); ps = [x * y for x in ra for y in rb_]
                l = lv(keyed(('mul', F.norm(a[1]), F.norm(b[1])), 2 * w, True, min(ps), max(ps)))
        elif op == 'abs':
            l = a[1] if c.ge(a[1]) else lneg(a[1])
        else: return None
        lo, hi = trange(w, sg)
        l = F.norm(l)
        if mode == 'wrapping': return c.ret(('i', I.wrapfork(c.st, l, w, sg), w, sg))
        okl, okh = F.cond('ge', laddc(l, -lo)), F.cond('ge', laddc(lneg(l), hi))
        if mode == 'unchecked':
            I.ob(c.st, 'ub', okl == 1 and okh == 1, k)
            return c.ret(('i', I.wrapfork(c.st, l, w, sg), w, sg))
        if mode == 'strict':
            I.ob(c.st, 'panic', okl == 1 and okh == 1, k)
            if not (c.st.F.assume_bit(okl, 1) and c.st.F.assume_bit(okh, 1)): return []
            return c.ret(('i', l, w, sg))
        inr = c.decide(okl) and c.decide(okh)
        if mode == 'checked': return c.ret(c.en('Some', ('i', l, w, sg)) if inr else c.en('None'))
        if mode == 'saturating':
            if inr: return c.ret(('i', l, w, sg))
            return c.ret(('i', lc(hi) if c.decide(okl) else lc(lo), w, sg))
        if mode == 'overflowing':
            r = ('i', l if inr else I.wrapfork(c.st, l, w, sg), w, sg)
            return c.ret(('agg', c.dty, (r, ('b', 0 if inr else 1))))
    if k == 'count_ones' and a[0] == 'i':
        return c.ret(c.int(bitsum(F, intbits(c, a))))
    if k == 'count_zeros' and a[0] == 'i':
        return c.ret(c.int(laddc(lneg(bitsum(F, intbits(c, a))), w)))
    if k in ('trailing_zeros', 'leading_zeros', 'trailing_ones', 'leading_ones') and a[0] == 'i':
        bs = intbits(c, a)
        if k.startswith('leading'): bs = bs[::-1]
        if k.endswith('ones'): bs = [b ^ 1 for b in bs]
        outs = lowbit(c, bs, w)
        return [(st, ('i', lc(i), 32, False)) for st, i in outs]
    if k in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes') and a[0] == 'seq':
        n = w // 8
        es = [I.elem(c.st, a, lc(i)) for i in range(n)]
        if k == 'from_be_bytes': es.reverse()
        return c.ret(I.int_from_bytes(c.st, es, w, sg))
    if k in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes') and a[0] == 'i':
        q = I.int_to_bytes(c.st, a, I.P.types[c.dty]['elem'], w // 8)
        if k == 'to_be_bytes': q = q[:4] + (tuple((lc(w // 8 - 1 - i), x[1]) for i, x in enumerate(q[4])),) + q[5:]
        return c.ret(q)
    if k in ('to_le', 'from_le') and a[0] == 'i': return c.ret(a)
    if k == 'is_power_of_two' and a[0] == 'i': return c.ret(('b', F.cond('eq', laddc(bitsum(F, intbits(c, a)), -1))))
    if k in ('min_value', 'max_value'):
        lo, hi = trange(w, sg); return c.ret(('i', lc(lo if k[1] == 'i' else hi), w, sg))
    if k == 'cast_signed' or k == 'cast_unsigned': return c.ret(I.cast(c.st, 'IntToInt', a, c.dty, None))
    if k == 'unsigned_abs' and a[0] == 'i':
        return c.ret(c.int(a[1] if c.ge(a[1]) else lneg(a[1])))
    if k == 'abs_diff' and a[0] == 'i':
        d = lsub(a[1], c.args[1][1]); return c.ret(c.int(d if c.ge(d) else lneg(d)))
    if k in ('is_negative', 'is_positive') and a[0] == 'i':
        return c.ret(('b', F.cond('ge', laddc(lneg(a[1]), -1) if k == 'is_negative' else laddc(a[1], -1))))
    if k == 'is_ascii' : return c.ret(('b', F.cond('ge', laddc(lneg(a[1]), 127))))  if a[0] == 'i' else None
    if k == 'swap_bytes' and a[0] == 'i':
        bs = intbits(c, a); r = []
        for i in range(w // 8 - 1, -1, -1): r += bs[8 * i:8 * i + 8]
        return c.ret(('i', I.truncbits(F, r, 0, w, sg), w, sg))
    if k in ('rotate_left', 'rotate_right') and a[0] == 'i':
        n = F.const(c.args[1][1])
        if n is None: return c.ret(c.top('rot'))
        bs = intbits(c, a); n %= w
        if k == 'rotate_left': n = (w - n) % w
        return c.ret(('i', I.truncbits(F, bs[n:] + bs[:n], 0, w, sg), w, sg))
    return None
@pattern(r'std::intrinsics::(saturating_add|saturating_sub|wrapping_add|wrapping_sub|wrapping_mul|ctpop|cttz|ctlz|cttz_nonzero|ctlz_nonzero|bswap|rotate_left|rotate_right|integer_max|integer_min|raw_eq|unchecked_add|unchecked_sub|unchecked_mul)$')
def m_intr(c, m):
    k = m.group(1); a = c.args[0] if c.args else None
    if k in ('integer_max', 'integer_min'):
        T = c.I.P.types[c.dty]; lo, hi = trange(T['bits'], T['signed'])
        return c.ret(c.int(lc(hi if k == 'integer_max' else lo)))
    if k == 'raw_eq':
        x, y = c.load(0), c.load(1)
        if x[0] == 'seq' and y[0] == 'seq':
            return c.ret(('b', bytes_eq(c.I, c.st, c.args[0], c.args[1])))
        return c.ret(c.top('raweq'))
    if a[0] != 'i': return c.ret(c.top('intr'))
    nm = {'ctpop': 'count_ones', 'cttz': 'trailing_zeros', 'ctlz': 'leading_zeros', 'cttz_nonzero': 'trailing_zeros', 'ctlz_nonzero': 'leading_zeros', 'bswap': 'swap_bytes'}.get(k, k)
    t = ('i' if a[3] else 'u') + str(a[2])
    return m_num(c, re.match(r'core::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$', 'core::num::<impl %s>::%s' % (t, nm)))
@model('core::f64::<impl f64>::from_le_bytes', 'core::f64::<impl f64>::from_ne_bytes')
def m_f64from(c):
    v = c.args[0]
    if v[0] != 'seq': return c.ret(c.top('f'))
    x = c.I.int_from_bytes(c.st, [c.I.elem(c.st, v, lc(i)) for i in range(8)], 64, False)
    return c.ret(c.I.f64from(c.st, x[1]))
@model('core::f64::<impl f64>::from_be_bytes')
def m_f64frombe(c):
    v = c.args[0]
    if v[0] != 'seq': return c.ret(c.top('f'))
    x = c.I.int_from_bytes(c.st, [c.I.elem(c.st, v, lc(7 - i)) for i in range(8)], 64, False)
    return c.ret(c.I.f64from(c.st, x[1]))
@pattern(r'core::f64::<impl f64>::to_(le|ne|be)_bytes$')
def m_f64to(c, m):
    if c.args[0][0] != 'f64': return c.ret(c.top('f'))
    b = c.I.f64bits(c.args[0])
    q = c.I.int_to_bytes(c.st, ('i', b, 64, False), c.I.P.types[c.dty]['elem'], 8)
    if m.group(1) == 'be': q = q[:4] + (tuple((lc(7 - i), x[1]) for i, x in enumerate(q[4])),) + q[5:]
    return c.ret(q)
@model('core::f64::<impl f64>::to_bits')
def m_f64tobits(c):
    if c.args[0][0] != 'f64': return c.ret(c.top('f'))
    return c.ret(c.int(c.I.f64bits(c.args[0])))
@model('core::f64::<impl f64>::from_bits')
def m_f64frombits(c):
    if c.args[0][0] != 'i': return c.ret(c.top('f'))
    return c.ret(c.I.f64from(c.st, c.args[0][1]))
@pattern(r'std::cmp::impls::<impl std::cmp::Ord for [iu]\w+>::(min|max|clamp|cmp)$')
def m_minmax(c, m):
    a, b = c.args[0], c.args[1]
    if m.group(1) not in ('min', 'max') or a[0] != 'i' or b[0] != 'i': return None
    ge = c.ge(lsub(a[1], b[1]))
    return c.ret(a if ge == (m.group(1) == 'max') else b)
@model('std::cmp::min', 'std::cmp::max')
def m_minmax2(c):
    a, b = c.args[0], c.args[1]
    if a[0] != 'i' or b[0] != 'i': return None
    ge = c.ge(lsub(a[1], b[1]))
    return c.ret(a if ge == (c.inst.defn.endswith('max')) else b)

# ---------------------------------------------------------------- ranges and iterators
@model('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def m_rnext(c):
    r = c.load(0)
    if r[0] == 'top': r = ('agg', r[1], tuple(c.I.sub(c.st, r, ('f', i)) for i in range(2)))
    if r[0] != 'agg' or r[2][0][0] != 'i': return None
    a, b = r[2]
    if not c.ge(laddc(lsub(b[1], a[1]), -1)): return c.ret(c.en('None'))
    c.store(('agg', r[1], (('i', c.st.F.norm(laddc(a[1], 1)), a[2], a[3]), b)))
    return c.ret(c.en('Some', a))
@model('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def m_rnextb(c):
    r = c.load(0)
    if r[0] != 'agg' or r[2][0][0] != 'i': return None
    a, b = r[2]
    if not c.ge(laddc(lsub(b[1], a[1]), -1)): return c.ret(c.en('None'))
    e = ('i', c.st.F.norm(laddc(b[1], -1)), b[2], b[3])
    c.store(('agg', r[1], (a, e)))
    return c.ret(c.en('Some', e))
@model('std::iter::ExactSizeIterator::len')
def m_exlen(c):
    r = c.load(0)
    if r[0] == 'agg' and len(r[2]) >= 2 and r[2][0][0] == 'i' and r[2][1][0] == 'i':
        d = lsub(r[2][1][1], r[2][0][1])
        return c.ret(c.int(d if c.ge(d) else ZERO))
    if r[0] in ('it', 'vit'): return c.ret(c.int(lsub(r[-1], r[-2])))
    return None
def mkiter(c, sl, kind='it'):
    return ('it', sl[1], sl[2], c.st.F.norm(sl[3]), c.st.F.norm(sl[4]))
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::slice::Iter::<\'a, T>::new', 'std::slice::IterMut::<\'a, T>::new')
def m_iter(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return c.ret(c.top('iter'))
    return c.ret(mkiter(c, sl))
@pattern(r"<&'a (mut )?(std::vec::Vec<T, A>|\[T\]|\[T; N\]|std::boxed::Box<\[.\], A>|std::boxed::Box<\[.\]>) as std::iter::IntoIterator>::into_iter$|<&(mut )?(std::vec::Vec<T, A>|\[T\]|\[T; N\]) as std::iter::IntoIterator>::into_iter$|core::(slice|array)::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T(; N)?\]>::into_iter$|core::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def m_iterref(c, m): return m_iter(c)
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_inext(c):
    r = c.load(0)
    if r[0] != 'it': return topnext(c)
    if not c.ge(laddc(lsub(r[4], r[3]), -1)): return c.ret(c.en('None'))
    c.store(('it', r[1], r[2], c.st.F.norm(laddc(r[3], 1)), r[4]))
    return c.ret(c.en('Some', ('p', r[1], r[2] + (('i', r[3]),))))
def topnext(c):
    outs = []
    n = c.st.copy()
    outs.append((c.st, c.en('None')))
    outs.append((n, c.en('Some', c.I.mk_top(c.fieldty('Some'), c.I.origin('nx')))))
    return outs
@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def m_inextb(c):
    r = c.load(0)
    if r[0] != 'it': return topnext(c)
    if not c.ge(laddc(lsub(r[4], r[3]), -1)): return c.ret(c.en('None'))
    e = c.st.F.norm(laddc(r[4], -1))
    c.store(('it', r[1], r[2], r[3], e))
    return c.ret(c.en('Some', ('p', r[1], r[2] + (('i', e),))))
@model("std::slice::Iter::<'a, T>::as_slice")
def m_itslice(c):
    r = c.load(0)
    if r[0] != 'it': return c.ret(c.top())
    return c.ret(('sl', r[1], r[2], r[3], r[4], 's'))
@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_vinto(c):
    v = c.args[0]
    if v[0] != 'vec': return c.ret(c.top())
    return c.ret(('vit', v[1], (), ZERO, v[2]))
@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def m_vnext(c):
    r = c.load(0)
    if r[0] != 'vit': return topnext(c)
    if not c.ge(laddc(lsub(r[4], r[3]), -1)): return c.ret(c.en('None'))
    c.store(('vit', r[1], r[2], c.st.F.norm(laddc(r[3], 1)), r[4]))
    return c.ret(c.en('Some', c.I.read(c.st, r[1], (('i', r[3]),))))
@pattern(r"(<std::slice::Iter<'a, T> as std::iter::Iterator>|<std::vec::IntoIter<T, A> as std::iter::Iterator>)::size_hint$")
def m_hint(c, m):
    r = c.load(0)
    if r[0] not in ('it', 'vit'): return c.ret(c.top())
    n = ('i', c.st.F.norm(lsub(r[4], r[3])), 64, False)
    t = c.I.P.fields(c.dty)[1]
    return c.ret(('agg', c.dty, (n, c.en('Some', n, t=t))))

# ---------------------------------------------------------------- slices
def rangeof(c, v, t, n):
    """(start, end) for an index value of type t over length n; None when not a range"""
    T = c.I.P.types[t]; nm = T.get('name', '')
    def f(i):
        x = c.I.sub(c.st, v, ('f', i))
        return x[1] if x[0] == 'i' else lv(fresh('ri'))
    if nm.endswith('ops::Range') or nm.endswith('range::Range'): return f(0), f(1)
    if nm.endswith('RangeTo'): return ZERO, f(0)
    if nm.endswith('RangeFrom'): return f(0), n
    if nm.endswith('RangeFull'): return ZERO, n
    if nm.endswith('RangeInclusive'): return f(0), laddc(f(1), 1)
    if nm.endswith('RangeToInclusive'): return ZERO, laddc(f(0), 1)
    return None
def index(c, mode):
    """mode: 'panic' | 'opt' | 'ub'"""
    I = c.I; st = c.st; F = st.F
    sl = as_slice(I, st, c.args[0])
    t = c.argty(1); iv = c.args[1]
    if sl is None:
        if mode != 'opt': I.ob(st, 'panic' if mode == 'panic' else 'ub', False, 'index')
        return c.ret(c.top('ix'))
    n = F.norm(sllen(sl))
    if I.P.types[t]['k'] == 'int':
        i = iv[1] if iv[0] == 'i' else lv(fresh('ix'))
        conds = [F.cond('ge', laddc(lsub(n, i), -1))]
        val = ('p', sl[1], sl[2] + (('i', F.norm(ladd(sl[3], i))),))
    else:
        r = rangeof(c, iv, t, n)
        if r is None: return None
        a, b = r
        conds = [F.cond('ge', lsub(b, a)), F.cond('ge', lsub(n, b))]
        val = ('sl', sl[1], sl[2], F.norm(ladd(sl[3], a)), F.norm(ladd(sl[3], b)), sl[5])
        if sl[5] == 'str' and not (F.prove_eq(a, ZERO) and F.prove_eq(b, n)): conds.append(1 << atom(('charb', I.origin())))
    if mode == 'opt':
        for e in conds:
            if not c.decide(e): return c.ret(c.en('None'))
        return c.ret(c.en('Some', val))
    ok = all(F.rb(e) == 1 for e in conds)
    I.ob(st, 'panic' if mode == 'panic' else 'ub', ok, 'index' if mode == 'panic' else 'get_unchecked')
    for e in conds:
        if not F.assume_bit(e, 1): return []
    return c.ret(val)
@pattern(r'(core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>|std::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>|<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>|core::str::traits::<impl std::ops::Index(Mut)?<I> for str>|<std::string::String as std::ops::Index(Mut)?<I>>)::index(_mut)?$')
def m_index(c, m): return index(c, 'panic')
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def m_get(c): return index(c, 'opt')
@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut', 'core::str::<impl str>::get_unchecked')
def m_getu(c): return index(c, 'ub')
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def m_len(c):
    sl = as_slice(c.I, c.st, c.args[0])
    return c.ret(c.int(sllen(sl)) if sl else c.top())
@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def m_isempty(c):
    sl = as_slice(c.I, c.st, c.args[0])
    return c.ret(('b', c.st.F.cond('eq', sllen(sl))) if sl else c.top())
def elemref(c, first, mutable=False):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return topnext(c)
    if not c.ge(laddc(sllen(sl), -1)): return c.ret(c.en('None'))
    i = sl[3] if first else laddc(sl[4], -1)
    return c.ret(c.en('Some', ('p', sl[1], sl[2] + (('i', c.st.F.norm(i)),))))
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def m_first(c): return elemref(c, True)
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def m_last(c): return elemref(c, False)
@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last', 'core::slice::<impl [T]>::split_first_mut')
def m_splitfirst(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return None
    if not c.ge(laddc(sllen(sl), -1)): return c.ret(c.en('None'))
    F = c.st.F; tt = c.fieldty('Some')
    if 'split_first' in c.inst.defn:
        v = (('p', sl[1], sl[2] + (('i', F.norm(sl[3])),)), ('sl', sl[1], sl[2], F.norm(laddc(sl[3], 1)), sl[4], 's'))
    else:
        v = (('p', sl[1], sl[2] + (('i', F.norm(laddc(sl[4], -1))),)), ('sl', sl[1], sl[2], sl[3], F.norm(laddc(sl[4], -1)), 's'))
    return c.ret(c.en('Some', ('agg', tt, v)))
def split(c, mode):
    sl = as_slice(c.I, c.st, c.args[0]); n = c.args[1]
    if sl is None or n[0] != 'i': return None
    F = c.st.F
    m = F.norm(ladd(sl[3], n[1]))
    val = lambda t: ('agg', t, (('sl', sl[1], sl[2], sl[3], m, sl[5]), ('sl', sl[1], sl[2], m, sl[4], sl[5])))
    e = F.cond('ge', lsub(sllen(sl), n[1]))
    if mode == 'opt':
        if not c.decide(e): return c.ret(c.en('None'))
        return c.ret(c.en('Some', val(c.fieldty('Some'))))
    c.I.ob(c.st, mode, F.rb(e) == 1, 'split_at')
    if not F.assume_bit(e, 1): return []
    return c.ret(val(c.dty))
@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def m_splitat(c): return split(c, 'panic')
@model('core::slice::<impl [T]>::split_at_checked', 'core::slice::<impl [T]>::split_at_mut_checked')
def m_splitatc(c): return split(c, 'opt')
@model('core::slice::<impl [T]>::split_at_unchecked', 'core::slice::<impl [T]>::split_at_mut_unchecked')
def m_splitatu(c): return split(c, 'ub')
def chunkval(c, sl, n):
    q = copyseq(c.I, c.st, ('sl', sl[1], sl[2], sl[3], c.st.F.norm(laddc(sl[3], n)), 's'), None)
    o = c.I.newobj(); c.st.mem[o] = q
    return ('p', o, ())
def arrlen(c, t):
    T = c.I.P.types[t]
    while T['k'] in ('ref', 'ptr'): T = c.I.P.types[T['to']]
    return T['len']
@model('core::slice::<impl [T]>::first_chunk', 'core::slice::<impl [T]>::split_first_chunk')
def m_chunk(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return None
    tt = c.fieldty('Some'); pair = 'split' in c.inst.defn
    n = arrlen(c, c.I.P.fields(tt)[0] if pair else tt)
    if not c.ge(laddc(sllen(sl), -n)): return c.ret(c.en('None'))
    p = chunkval(c, sl, n)
    if pair: return c.ret(c.en('Some', ('agg', tt, (p, ('sl', sl[1], sl[2], c.st.F.norm(laddc(sl[3], n)), sl[4], 's')))))
    return c.ret(c.en('Some', p))
@model('core::slice::<impl [T]>::last_chunk')
def m_lchunk(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return None
    n = arrlen(c, c.fieldty('Some'))
    if not c.ge(laddc(sllen(sl), -n)): return c.ret(c.en('None'))
    return c.ret(c.en('Some', chunkval(c, ('sl', sl[1], sl[2], c.st.F.norm(laddc(sl[4], -n)), sl[4], 's'), n)))
@pattern(r"std::array::<impl std::convert::TryFrom<&('a )?(mut )?\[T\]> for (&'a )?(mut )?\[T; N\]>::try_from$")
def m_tryarr(c, m):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return None
    t = c.fieldty('Ok'); n = arrlen(c, t)
    if not c.decide(c.st.F.cond('eq', laddc(sllen(sl), -n))):
        return c.ret(c.en('Err', c.I.mk_top(c.fieldty('Err'), c.I.origin('tf'))))
    p = chunkval(c, sl, n)
    if c.I.P.types[t]['k'] == 'array':
        q = c.st.mem[p[1]]
        return c.ret(c.en('Ok', q[:2] + (lc(n),) + q[3:]))
    return c.ret(c.en('Ok', p))
@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'core::str::<impl str>::as_ptr', 'std::vec::Vec::<T, A>::as_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr')
def m_asptr(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return c.ret(c.top())
    return c.ret(('ep', sl[1], sl[2], sl[3], sl[4]))
@model('core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::as_str', 'std::string::String::as_mut_str', '<std::string::String as std::ops::Deref>::deref', '<std::string::String as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::slice::<impl std::borrow::Borrow<[T]> for std::vec::Vec<T, A>>::borrow', 'std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut', '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::convert::AsRef<[u8]>>::as_ref',
       'core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref', 'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice')
def m_view(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return c.ret(c.top())
    T = c.I.P.types[c.dty]; E = c.I.P.types[T['to']]
    return c.ret(sl[:5] + ('str' if E['k'] == 'str' else 's',))
@model('core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::string::String as std::clone::Clone>::clone',
       '<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::string::String as std::convert::From<&str>>::from', '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', 'std::slice::<impl [T]>::to_vec_in', 'alloc::slice::<impl [T]>::to_vec',
       'std::str::<impl str>::to_string', 'std::string::<impl std::string::ToString for str>::to_string', '<str as std::string::ToString>::to_string', '<str as std::string::SpecToString>::spec_to_string', '<std::string::String as std::convert::From<&mut str>>::from', 'alloc::str::<impl str>::to_owned')
def m_toowned(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return c.ret(c.top())
    c.I.alloc(c.st, 'copy', sllen(sl), elty(c.I, c.dty))
    return c.ret(newvec(c.I, c.st, copyseq(c.I, c.st, sl, elty(c.I, c.dty))))
@pattern(r'<(.*) as std::string::(?:ToString|SpecToString)>::(?:to_string|spec_to_string)$')
def m_tostring(c, m):
    T = c.I.P.types[c.argty(0)]
    E = c.I.P.types[T['to']] if T['k'] == 'ref' else T
    if E['k'] == 'str' or E.get('name', '').endswith('String'): return m_toowned(c)
    return c.ret(c.top('ts'))
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copyfrom(c):
    d, s_ = as_slice(c.I, c.st, c.args[0]), as_slice(c.I, c.st, c.args[1])
    if d is None or s_ is None: return None
    F = c.st.F
    e = F.cond('eq', lsub(sllen(d), sllen(s_)))
    c.I.ob(c.st, 'panic', F.rb(e) == 1, 'copy_from_slice length')
    if not F.assume_bit(e, 1): return []
    q = seqof(c.I, c.st, d)
    if q[0] == 'seq':
        n = F.const(sllen(d)); sq = seqof(c.I, c.st, s_)
        if n is not None and n <= 64 and sq[0] == 'seq':
            for i in range(n): q = c.I.setelem(c.st, q, laddc(d[3], i), c.I.elem(c.st, sq, laddc(s_[3], i)))
            c.I.write(c.st, d[1], d[2], q)
        else:
            full = F.prove_eq(d[3], ZERO) and F.prove_eq(d[4], q[2])
            k = copyseq(c.I, c.st, s_, q[1])
            c.I.write(c.st, d[1], d[2], ('seq', q[1], q[2], k[3] if full else c.I.freshtag(), k[4] if full else (), None if full else q[5]))
    return c.unit()
@model('core::slice::<impl [T]>::fill')
def m_fill(c):
    d = as_slice(c.I, c.st, c.args[0])
    if d is None: return None
    q = seqof(c.I, c.st, d); F = c.st.F
    if q[0] == 'seq':
        full = F.prove_eq(d[3], ZERO) and F.prove_eq(d[4], q[2])
        c.I.write(c.st, d[1], d[2], ('seq', q[1], q[2], ('fill', c.args[1]) if full else c.I.freshtag(), (), None if full else q[5]))
    return c.unit()
@pattern(r'(std::array::equality::<impl std::cmp::PartialEq<.*> for .*>|core::slice::cmp::<impl std::cmp::PartialEq<.*> for \[T\]>|std::slice::cmp::<impl std::cmp::PartialEq<.*> for .*>|core::str::traits::<impl std::cmp::PartialEq for str>|std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>|<std::string::String as std::cmp::PartialEq(?:<.*>)?>|<.* as std::array::equality::SpecArrayEq<.*>>)::(spec_)?(eq|ne)$')
def m_seqeq(c, m):
    et = elty(c.I, c.argty(0))
    if et is not None and c.I.P.types[et]['k'] not in ('int', 'bool', 'char'):
        return c.ret(('b', 1 << atom(('eq', c.I.origin()))))
    e = bytes_eq(c.I, c.st, derefref(c, 0), derefref(c, 1))
    return c.ret(('b', e if m.group(3) == 'eq' else e ^ 1))
def derefref(c, i):
    """strip reference layers down to a slice-like value"""
    v = c.args[i]
    t = c.argty(i)
    for _ in range(3):
        if as_slice(c.I, c.st, v) is not None and v[0] in ('sl', 'bsl', 'vec'): return v
        if v[0] == 'p':
            w = c.I.read(c.st, v[1], v[2])
            if w[0] in ('p', 'sl', 'bsl', 'vec', 'box'): v = w; continue
        break
    return v
@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_starts(c):
    a, b = as_slice(c.I, c.st, c.args[0]), as_slice(c.I, c.st, c.args[1])
    if a is None or b is None: return c.ret(c.top())
    n = sllen(b); F = c.st.F
    if not c.ge(lsub(sllen(a), n)): return c.ret(('b', 0))
    if 'starts' in c.inst.defn: w = ('sl', a[1], a[2], a[3], F.norm(ladd(a[3], n)), 's')
    else: w = ('sl', a[1], a[2], F.norm(lsub(a[4], n)), a[4], 's')
    return c.ret(('b', bytes_eq(c.I, c.st, w, b)))
@model('core::slice::<impl [T]>::strip_prefix', 'core::slice::<impl [T]>::strip_suffix')
def m_strip(c):
    a, b = as_slice(c.I, c.st, c.args[0]), as_slice(c.I, c.st, derefref(c, 1))
    if a is None or b is None: return c.ret(c.top())
    n = sllen(b); F = c.st.F
    if not c.ge(lsub(sllen(a), n)): return c.ret(c.en('None'))
    if 'prefix' in c.inst.defn: m = F.norm(ladd(a[3], n)); w = ('sl', a[1], a[2], a[3], m, 's'); r = ('sl', a[1], a[2], m, a[4], 's')
    else: m = F.norm(lsub(a[4], n)); w = ('sl', a[1], a[2], m, a[4], 's'); r = ('sl', a[1], a[2], a[3], m, 's')
    return c.ret(c.en('Some', r) if c.decide(bytes_eq(c.I, c.st, w, b)) else c.en('None'))
@pattern(r'core::slice::<impl std::default::Default for &(mut )?\[T\]>::default$|core::str::traits::<impl std::default::Default for &str>::default$|<&str as std::default::Default>::default$')
def m_defsl(c, m):
    o = c.I.newobj(); c.st.mem[o] = ('seq', elty(c.I, c.dty), ZERO, ('none',), (), None)
    return c.ret(('sl', o, (), ZERO, ZERO, 's'))

# ---------------------------------------------------------------- strings
@model('std::str::from_utf8', 'core::str::from_utf8', 'core::str::<impl str>::from_utf8')
def m_utf8(c):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None: return c.ret(c.top('u8'))
    ct = content(c.I, c.st, sl)
    b = c.st.copy()
    c.st.tags = c.st.tags | {('utf8', ct)}
    c.I.event(c.st, 'from_utf8', 'Ok', c.args); c.I.event(b, 'from_utf8', 'Err', c.args)
    return [(c.st, c.en('Ok', sl[:5] + ('str',))), (b, c.en('Err', c.I.mk_top(c.fieldty('Err'), c.I.origin('u8'))))]
@model('std::string::String::from_utf8')
def m_strutf8(c):
    v = c.args[0]
    if v[0] != 'vec': return c.ret(c.top('u8'))
    b = c.st.copy()
    c.st.tags = c.st.tags | {('utf8', content(c.I, c.st, v))}
    c.I.event(c.st, 'from_utf8', 'Ok', c.args); c.I.event(b, 'from_utf8', 'Err', c.args)
    return [(c.st, c.en('Ok', v)), (b, c.en('Err', c.I.mk_top(c.fieldty('Err'), c.I.origin('u8'))))]
def valid_utf8(I, st, v):
    sl = as_slice(I, st, v)
    if sl is None: return False
    if sl[5] == 'str': return True
    ct = content(I, st, sl)
    if ct is not None and ('utf8', ct) in st.tags: return True
    if ct is not None:
        for k in st.tags:
            if k[0] == 'utf8' and eqcontent(st.F, k[1], ct): return True
    if st.F.prove_eq(sllen(sl)): return True
    if ct is not None and ct[0] == 'els' and all(st.F.rng(x)[1] <= 127 for x in ct[1] if isinstance(x, tuple)): return True
    return False
def eqcontent(F, a, b):
    if a is None or b is None: return False
    if a == b: return True
    if a[0] == 'tag' and b[0] == 'tag' and a[1] == b[1]: return F.prove_eq(a[2], b[2]) and F.prove_eq(a[3], b[3])
    return False
@model('std::str::from_utf8_unchecked', 'core::str::from_utf8_unchecked', 'core::str::<impl str>::from_utf8_unchecked', 'std::str::from_utf8_unchecked_mut', 'std::str::from_boxed_utf8_unchecked')
def m_utf8u(c):
    sl = as_slice(c.I, c.st, c.args[0])
    c.I.ob(c.st, 'ub', sl is not None and valid_utf8(c.I, c.st, sl), 'from_utf8_unchecked')
    if sl is None: return c.ret(c.top())
    if c.args[0][0] == 'bsl': return c.ret(('bsl', sl[:5] + ('str',)))
    return c.ret(sl[:5] + ('str',))
@model('std::string::String::from_utf8_unchecked')
def m_strutf8u(c):
    c.I.ob(c.st, 'ub', c.args[0][0] == 'vec' and valid_utf8(c.I, c.st, c.args[0]), 'from_utf8_unchecked')
    return c.ret(c.args[0])
@model('std::string::String::into_bytes')
def m_intobytes(c): return c.ret(c.args[0])
@model('std::string::String::into_boxed_str', 'std::vec::Vec::<T, A>::into_boxed_slice')
def m_intobox(c):
    v = c.args[0]
    if v[0] != 'vec': return c.ret(c.top())
    return c.ret(('bsl', ('sl', v[1], (), ZERO, v[2], 'str' if 'str' in c.inst.defn.rsplit('::', 1)[1] else 's')))
@pattern(r"(?:std::boxed::convert::<impl std::convert::From<.*> for |<)std::(?:boxed::Box|rc::Rc|sync::Arc)<(?:str|\[T\])>(?: as std::convert::From<.*>)?>::from$")
def m_boxfrom(c, m):
    sl = as_slice(c.I, c.st, c.args[0])
    if sl is None:
        return None
    o = c.I.newobj(); c.st.mem[o] = copyseq(c.I, c.st, sl, None)
    kind = 'str' if 'str' in c.inst.defn.split(' as ')[0] else 's'
    return c.ret(('bsl', ('sl', o, (), ZERO, c.st.F.norm(sllen(sl)), kind)))
@pattern(r"<std::(?:boxed::Box|rc::Rc|sync::Arc)<(str|\[T\]|CStr)> as std::default::Default>::default$")
def m_boxdef(c, m):
    o = c.I.newobj(); c.st.mem[o] = ('seq', elty(c.I, c.dty), ZERO, ('none',), (), None)
    return c.ret(('bsl', ('sl', o, (), ZERO, ZERO, 'str' if m.group(1) == 'str' else 's')))
@model('<std::vec::Vec<T, A> as std::convert::From<std::string::String>>::from', '<std::vec::Vec<u8> as std::convert::From<std::string::String>>::from')
def m_idv(c): return c.ret(c.args[0])
@model('std::string::String::push_str', 'std::vec::Vec::<T, A>::extend_from_slice')
def m_extslice(c):
    v = c.load(0); sl = as_slice(c.I, c.st, c.args[1])
    if v[0] != 'vec' or sl is None: return None
    F = c.st.F
    q = c.st.mem.get(v[1], ('seq', elty(c.I, c.argty(0)), v[2], c.I.freshtag(), (), None))
    n = F.norm(ladd(v[2], sllen(sl)))
    nq = ('seq', q[1], n, c.I.freshtag(), (), q[5])
    c.I.alloc(c.st, 'extend', n, q[1])
    if q[5] is not None and F.prove_eq(q[5], v[2]): nq = nq[:5] + (n,)
    if F.prove_eq(v[2]):
        k = copyseq(c.I, c.st, sl, q[1]); nq = ('seq', q[1], n, k[3], k[4], None)
    o = c.I.newobj(); c.st.mem[o] = nq
    c.store(('vec', o, n, n))
    return c.unit()

# ---------------------------------------------------------------- Vec
@model('std::vec::Vec::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default', 'std::string::String::new', '<std::string::String as std::default::Default>::default')
def m_vnew(c):
    return c.ret(newvec(c.I, c.st, ('seq', elty(c.I, c.dty), ZERO, ('none',), (), ZERO)))
@model('std::vec::Vec::<T>::with_capacity', 'std::string::String::with_capacity')
def m_withcap(c):
    n = c.args[0]
    et = elty(c.I, c.dty); F = c.st.F
    sz = c.I.elemsize(et)
    l = n[1] if n[0] == 'i' else lv(fresh('cap'))
    e = F.cond('ge', laddc(lneg(lscale(l, sz)), (1 << 63) - 1))
    c.I.ob(c.st, 'panic', F.rb(e) == 1, 'capacity overflow')
    if not F.assume_bit(e, 1): return []
    c.I.alloc(c.st, 'with_capacity', l, et)
    return c.ret(newvec(c.I, c.st, ('seq', et, ZERO, ('none',), (), ZERO), F.norm(l)))
@model('std::vec::Vec::<T>::try_with_capacity')
def m_trywithcap(c):
    n = c.args[0]
    et = elty(c.I, c.fieldty('Ok'))
    l = n[1] if n[0] == 'i' else lv(fresh('cap'))
    b = c.st.copy()
    c.I.alloc(c.st, 'try_with_capacity', l, et)
    return [(c.st, c.en('Ok', newvec(c.I, c.st, ('seq', et, ZERO, ('none',), (), ZERO), c.st.F.norm(l)))), (b, c.en('Err', c.I.mk_top(c.fieldty('Err'), c.I.origin('tr'))))]
@pattern(r'std::(?:vec::Vec::<T, A>|string::String)::(try_)?reserve(_exact)?$')
def m_reserve(c, m):
    v = c.load(0); n = c.args[1]
    if v[0] != 'vec': return None
    F = c.st.F; T = c.I.P.types[c.argty(0)]
    et = elty(c.I, T['to']); sz = c.I.elemsize(et)
    tot = F.norm(ladd(v[2], n[1]))
    if m.group(1):
        b = c.st.copy()
        c.I.alloc(c.st, 'try_reserve', tot, et)
        cap = v[3] if F.prove_ge(lsub(v[3], tot)) else tot
        c.store(('vec', v[1], v[2], cap))
        return [(c.st, c.en('Ok', ('agg', c.fieldty('Ok'), ()))), (b, c.en('Err', c.I.mk_top(c.fieldty('Err'), c.I.origin('tr'))))]
    e = F.cond('ge', laddc(lneg(lscale(tot, max(sz, 1))), (1 << 63) - 1))
    c.I.ob(c.st, 'panic', F.rb(e) == 1, 'capacity overflow')
    if not F.assume_bit(e, 1): return []
    c.I.alloc(c.st, 'reserve', tot, et)
    cap = v[3] if F.prove_ge(lsub(v[3], tot)) else tot
    c.store(('vec', v[1], v[2], cap))
    return c.unit()
@model('std::vec::Vec::<T, A>::push', 'std::vec::Vec::<T, A>::push_mut', 'std::vec::Vec::<T, A>::push_within_capacity')
def m_push(c):
    v = c.load(0)
    if v[0] != 'vec': return None
    F = c.st.F
    T = c.I.P.types[c.argty(0)]
    q = c.I.read(c.st, v[1], ())
    if q[0] != 'seq': q = ('seq', elty(c.I, T['to']), v[2], c.I.freshtag(), (), None)
    n = F.norm(v[2]); l = F.norm(laddc(n, 1))
    q = c.I.setelem(c.st, q, n, c.args[1])
    c.st.mem[v[1]] = ('seq', q[1], l, q[3], q[4], q[5])
    grow = not F.prove_ge(lsub(v[3], l))
    if grow: c.I.alloc(c.st, 'push', None, q[1])
    c.store(('vec', v[1], l, l if grow else v[3]))
    h = c.I.collect.get('push')
    if h: h(c, v, c.args[1])
    for m in c.I.monitors:
        f = getattr(m, 'pushed', None)
        if f: f(c.I, c.st, v, c.args[1])
    if c.inst.defn.endswith('push_mut'): return c.ret(('p', v[1], (('i', n),)))
    return c.unit()
@model('std::vec::Vec::<T, A>::pop')
def m_pop(c):
    v = c.load(0)
    if v[0] != 'vec': return None
    if not c.ge(laddc(v[2], -1)): return c.ret(c.en('None'))
    n = c.st.F.norm(laddc(v[2], -1))
    x = c.I.read(c.st, v[1], (('i', n),))
    c.store(('vec', v[1], n, v[3]))
    return c.ret(c.en('Some', x))
@model('std::vec::Vec::<T, A>::set_len')
def m_setlen(c):
    v = c.load(0); n = c.args[1]
    if v[0] != 'vec': return None
    F = c.st.F
    c.I.ob(c.st, 'ub', F.prove_ge(lsub(v[3], n[1])), 'set_len')
    q = c.I.read(c.st, v[1], ())
    if q[0] == 'seq':
        c.st.mem[v[1]] = ('seq', q[1], F.norm(n[1]), q[3] if q[3] != ('none',) else c.I.freshtag(), q[4], q[5])
    c.store(('vec', v[1], F.norm(n[1]), v[3]))
    return c.unit()
@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def m_clear(c):
    v = c.load(0)
    if v[0] != 'vec': return c.unit()
    T = c.I.P.types[c.argty(0)]
    o = c.I.newobj(); c.st.mem[o] = ('seq', elty(c.I, T['to']), ZERO, ('none',), (), ZERO)
    c.store(('vec', o, ZERO, v[3]))
    return c.unit()
@model('std::vec::Vec::<T, A>::truncate')
def m_trunc(c):
    v = c.load(0); n = c.args[1]
    if v[0] != 'vec': return None
    if c.ge(lsub(n[1], v[2])): return c.unit()
    q = c.I.read(c.st, v[1], ())
    if q[0] == 'seq': c.st.mem[v[1]] = q[:2] + (c.st.F.norm(n[1]),) + q[3:]
    c.store(('vec', v[1], c.st.F.norm(n[1]), v[3]))
    return c.unit()
@model('std::vec::Vec::<T, A>::len', 'std::string::String::len')
def m_vlen(c):
    v = c.load(0)
    return c.ret(c.int(v[2]) if v[0] == 'vec' else c.top())
@model('std::vec::Vec::<T, A>::capacity')
def m_vcap(c):
    v = c.load(0)
    return c.ret(c.int(v[3]) if v[0] == 'vec' else c.top())
@model('std::vec::Vec::<T, A>::is_empty', 'std::string::String::is_empty')
def m_vempty(c):
    v = c.load(0)
    return c.ret(('b', c.st.F.cond('eq', v[2])) if v[0] == 'vec' else c.top())
@model('std::vec::from_elem')
def m_fromelem(c):
    x, n = c.args
    et = elty(c.I, c.dty); F = c.st.F
    e = F.cond('ge', laddc(lneg(lscale(n[1], c.I.elemsize(et))), (1 << 63) - 1))
    c.I.ob(c.st, 'panic', F.rb(e) == 1, 'capacity overflow')
    if not F.assume_bit(e, 1): return []
    c.I.alloc(c.st, 'from_elem', n[1], et)
    return c.ret(newvec(c.I, c.st, ('seq', et, F.norm(n[1]), ('fill', x), (), None)))
@model('std::vec::Vec::<T, A>::resize')
def m_resize(c):
    v = c.load(0); n = c.args[1]
    if v[0] != 'vec': return None
    F = c.st.F
    q = c.I.read(c.st, v[1], ())
    if q[0] != 'seq': return None
    e = F.cond('ge', laddc(lneg(lscale(n[1], c.I.elemsize(q[1]))), (1 << 63) - 1))
    c.I.ob(c.st, 'panic', F.rb(e) == 1, 'capacity overflow')
    if not F.assume_bit(e, 1): return []
    if not F.prove_ge(lsub(v[3], n[1])): c.I.alloc(c.st, 'resize', n[1], q[1])
    emp = F.prove_eq(v[2])
    l = F.norm(n[1])
    init = q[5]
    if init is not None and F.prove_eq(init, v[2]): init = None
    c.st.mem[v[1]] = ('seq', q[1], l, ('fill', c.args[2]) if emp else c.I.freshtag(), (), None if emp else init)
    c.store(('vec', v[1], l, v[3] if F.prove_ge(lsub(v[3], l)) else l))
    return c.unit()
@model('std::vec::Vec::<T, A>::spare_capacity_mut')
def m_spare(c):
    v = c.load(0)
    if v[0] != 'vec': return None
    return c.ret(('sl', v[1], (), v[2], v[3], 's'))
@model('std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::shrink_to', 'std::string::String::shrink_to_fit')
def m_shrink(c): return c.unit()
@model('std::vec::cow::<impl std::convert::From<std::vec::Vec<T>> for std::borrow::Cow<\'a, [T]>>::from')
def m_cowvec(c): return c.ret(c.en('Owned', c.args[0]))

# ---------------------------------------------------------------- Box, Rc, Arc
@model('std::boxed::Box::<T>::new', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new', '<std::boxed::Box<T> as std::convert::From<T>>::from', '<std::rc::Rc<T> as std::convert::From<T>>::from', '<std::sync::Arc<T> as std::convert::From<T>>::from')
def m_boxnew(c):
    o = c.I.newobj(); c.st.mem[o] = c.args[0]
    return c.ret(('box', o))
def boxed(c):
    v = c.load(0)
    if v[0] == 'bsl': return v[1]
    if v[0] == 'box': return ('p', v[1], ())
    return None
@pattern(r'<std::(boxed::Box|rc::Rc|sync::Arc)<T(, A)?> as std::(convert::AsRef<T>|convert::AsMut<T>|ops::Deref|ops::DerefMut|borrow::Borrow<T>|borrow::BorrowMut<T>)>::(as_ref|as_mut|deref|deref_mut|borrow|borrow_mut)$')
def m_boxref(c, m):
    v = boxed(c)
    return c.ret(v if v is not None else c.top())
@pattern(r'std::(?:rc::Rc|sync::Arc)::<T, A>::(get_mut|make_mut|get_mut_unchecked|as_ptr|try_unwrap|ptr_eq|strong_count)$')
def m_rcmut(c, m):
    v = boxed(c) if m.group(1) != 'try_unwrap' else None
    if m.group(1) == 'get_mut':
        b = c.st.copy()
        if v is None: v = c.I.mk_top(c.fieldty('Some'), c.I.origin('rc'))
        # an Rc created in this analysis and never cloned is unique
        if v[0] == 'p' and v[1][0] == 'h' and ('shared', v[1]) not in c.st.tags: return c.ret(c.en('Some', v))
        c.I.event(b, 'rc_shared', 'Err', c.args)
        return [(c.st, c.en('Some', v)), (b, c.en('None'))]
    if m.group(1) in ('make_mut', 'as_ptr', 'get_mut_unchecked') and v is not None:
        if m.group(1) == 'get_mut_unchecked': c.I.ob(c.st, 'ub', False, 'get_mut_unchecked')
        return c.ret(v)
    return c.ret(c.top('rc'))
@pattern(r'<std::(?:rc::Rc|sync::Arc)<T(, A)?> as std::clone::Clone>::clone$')
def m_rcclone(c, m):
    v = c.load(0)
    if v[0] == 'box': c.st.tags = c.st.tags | {('shared', v[1])}
    return c.ret(v)
@pattern(r'std::boxed::Box::<T(, A)?>::(into_inner|leak|into_raw|from_raw)$')
def m_boxinto(c, m):
    v = c.args[0]
    if m.group(2) == 'into_inner' and v[0] == 'box': return c.ret(c.I.read(c.st, v[1], ()))
    if m.group(2) in ('leak', 'into_raw') and v[0] == 'box': return c.ret(('p', v[1], ()))
    return c.ret(c.top('bx'))
@model('std::clone::impls::<impl std::clone::Clone for &T>::clone')
def m_refclone(c): return c.ret(c.load(0))

# ---------------------------------------------------------------- Result, Option
@model('<std::result::Result<T, E> as std::ops::Try>::branch')
def m_branch(c):
    v = c.args[0]
    if v[0] == 'top':
        c.I.discr(c.st, v, v[1], None)   # raises Fork
    if v[0] != 'en': return None
    P = c.I.P
    if P.types[v[1]]['variants'][v[2]]['name'] == 'Ok': return c.ret(c.en('Continue', v[3][0]))
    bt = c.fieldty('Break')
    return c.ret(c.en('Break', ('en', bt, [i for i, x in enumerate(P.types[bt]['variants']) if x['name'] == 'Err'][0], (v[3][0],))))

# ---------------------------------------------------------------- I/O
@model('std::io::Error::kind')
def m_kind(c):
    v = c.args[0]
    while v[0] == 'p': v = c.I.read(c.st, v[1], v[2])
    return c.ret(kindof(c.I, v, c.dty) if v[0] == 'top' else c.top('kind'))
def kindof(I, v, ty):
    """the kind of an I/O error"""
    if v[2][0] == 'ioek': return v[2][1]
    return I.mk_top(ty, ('kind', v[2]))
@pattern(r'<std::io::Error as std::convert::From<std::io::ErrorKind>>::from$')
def m_ioerrkind(c, m): return c.ret(c.I.mk_top(c.dty, ('ioek', c.args[0])))
@pattern(r'<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$')
def m_kindeq(c, m):
    vs = []
    for v in c.args[:2]:
        while v[0] == 'p': v = c.I.read(c.st, v[1], v[2])
        if v[0] == 'top' and v[2] in c.st.ch: v = ('en', v[1], c.st.ch[v[2]], ())
        vs.append(v)
    a, b = vs; neg = m.group(1) == 'ne'
    if a == b: return c.ret(('b', int(not neg)))
    if a[0] == 'en' and b[0] == 'en': return c.ret(('b', int((a[2] == b[2]) != neg)))
    if a[0] == 'en': a, b = b, a
    at = 1 << atom(('kindeq', a, b))
    if a[0] == 'top' and b[0] == 'en':
        if c.decide(at):
            c.st.ch[a[2]] = b[2]; return c.ret(('b', int(not neg)))
        return c.ret(('b', int(neg)))
    return c.ret(('b', at ^ int(neg)))
@pattern(r'std::io::Error::(new|other|from_raw_os_error|last_os_error|is_interrupted|raw_os_error|get_ref|into_inner)$')
def m_ioerr(c, m): return c.ret(c.top('ioe'))
def fillbuf(c, st, sl, tag=None):
    """contents of a whole buffer window written by the source"""
    q = seqof(c.I, st, sl)
    F = st.F
    if q[0] != 'seq': return
    full = F.prove_eq(sl[3], ZERO) and F.prove_ge(lsub(sl[4], q[2]))
    n = F.const(sllen(sl))
    tag = tag or c.I.freshtag()
    if full: c.I.write(st, sl[1], sl[2], ('seq', q[1], q[2], tag, (), None))
    elif n is not None and n <= 64:
        for i in range(n): q = c.I.setelem(st, q, laddc(sl[3], i), c.I.elemtag(st, q[1], tag, lc(i)))
        c.I.write(st, sl[1], sl[2], q)
    else:
        init = q[5]
        if init is not None and F.prove_ge(lsub(init, sl[3])): init = F.norm(sl[4]) if F.prove_ge(lsub(sl[4], init)) else init
        c.I.write(st, sl[1], sl[2], ('seq', q[1], q[2], c.I.freshtag(), (), init))
def err(c, st, variant='Err'):
    e = c.I.mk_top(c.fieldty('Err'), c.I.origin('io'))
    st.mem[('g', 'lasterr')] = e
    return c.en('Err', e)
def okunit(c): return c.en('Ok', ('agg', c.fieldty('Ok'), ()))
def read_exact(c):
    sl = as_slice(c.I, c.st, c.args[1])
    b = c.st.copy()
    tag = c.I.freshtag()
    if sl is not None: fillbuf(c, c.st, sl, tag); n = c.st.F.norm(sllen(sl))
    else: n = None
    c.I.event(c.st, 'read_exact', 'Ok', (n, tag, sl), None, c.args[0]); c.I.event(b, 'read_exact', 'Err', (n, tag, sl), None, c.args[0])
    return [(c.st, okunit(c)), (b, err(c, b))]
# the harness types that stand for an arbitrary reader, writer or file
def anyio(c): return '<ct_harness::Any' in c.inst.defn or '<ct_harness::Any' in c.inst.name
@pattern(r'(?:std::io::Read|<.* as std::io::Read>)::(\w+)$')
def m_read(c, m):
    k = m.group(1)
    if k == 'read_exact': return read_exact(c)
    if k == 'by_ref': return c.ret(c.args[0])
    if k == 'read':
        if c.inst.user and not anyio(c): return None
        sl = as_slice(c.I, c.st, c.args[1])
        b = c.st.copy(); t = c.fieldty('Ok')
        T = c.I.P.types[t]
        if sl is not None and c.st.F.const(c.st.F.norm(sllen(sl))) == 1:
            # one byte is read whole, or the input ends
            z = c.st.copy(); tag = c.I.freshtag()
            fillbuf(c, c.st, sl, tag)
            c.I.event(c.st, 'read_exact', 'Ok', (ONE, tag, sl), None, c.args[0]); c.I.event(z, 'read', 'Ok', (ZERO, None, sl), None, c.args[0]); c.I.event(b, 'read', 'Err', (ONE, None, sl), None, c.args[0])
            return [(c.st, c.en('Ok', ('i', ONE, 64, False))), (z, c.en('Ok', ('i', ZERO, 64, False))), (b, err(c, b))]
        # some bytes, or none because there are none to come or none were asked for
        n = lv(fresh('nread', 64, False, 1, (1 << 62)))
        z = c.st.copy(); outs = []
        okm = True
        if sl is not None:
            okm = c.st.F.assume_ge(lsub(sllen(sl), n)) and not c.st.F.dead
            q = seqof(c.I, c.st, sl)
            if okm and q[0] == 'seq':
                init = q[5]
                if init is not None and c.st.F.prove_ge(lsub(init, sl[3])): init = c.st.F.norm(ladd(sl[3], n))
                c.I.write(c.st, sl[1], sl[2], ('seq', q[1], q[2], c.I.freshtag(), (), init))
        if okm:
            c.I.event(c.st, 'read', 'Ok', (n, None, sl), None, c.args[0]); outs.append((c.st, c.en('Ok', ('i', n, 64, False))))
        c.I.event(z, 'read', 'Ok', (ZERO, None, sl), None, c.args[0]); c.I.event(b, 'read', 'Err', (n, None, sl), None, c.args[0])
        return outs + [(z, c.en('Ok', ('i', ZERO, 64, False))), (b, err(c, b))]
    if k in ('read_to_end', 'read_to_string'):
        v = c.load(1)
        b = c.st.copy()
        n = lv(fresh('nread', 64, False, 0, (1 << 62)))
        r = c.load(0)
        lim = None
        if r[0] == 'agg' and c.I.P.types[r[1]].get('name', '').endswith('Take'):
            for f in r[2]:
                if f[0] == 'i': c.st.F.assume_ge(lsub(f[1], n)); lim = f[1]; break
            c.I.alloc(c.st, 'read_to_end', n, c.I.P.u8())
        else: c.I.alloc(c.st, 'read_to_end', n, c.I.P.u8())
        for st in (c.st, b):
            if v[0] == 'vec':
                q = c.I.read(st, v[1], ())
                l = st.F.norm(ladd(v[2], n))
                init = q[5] if q[0] == 'seq' else None
                if init is not None and st.F.prove_eq(init, v[2]): init = l
                o = c.I.newobj(); st.mem[o] = ('seq', c.I.P.u8(), l, c.I.freshtag(), (), init)
                oo, pp, _ = c.I.deref(st, c.args[1])
                c.I.write(st, oo, pp, ('vec', o, l, l))
        outs = []
        if lim is not None:
            # everything up to the limit, or less
            for d in (lsub(n, lim), laddc(lsub(lim, n), -1)):
                t = c.st.copy()
                if (t.F.assume_eq(d) if d == lsub(n, lim) else t.F.assume_ge(d)) and not t.F.dead: outs.append(t)
        else: outs.append(c.st)
        for t in outs: c.I.event(t, 'read_to_end', 'Ok', (n, lim, None), None, c.args[0])
        c.I.event(b, 'read_to_end', 'Err', (n, None, None), None, c.args[0])
        return [(t, c.en('Ok', ('i', n, 64, False))) for t in outs] + [(b, err(c, b))]
    return None
@pattern(r'(?:std::io::Write|<.* as std::io::Write>)::(\w+)$')
def m_write(c, m):
    k = m.group(1)
    if c.inst.user and not anyio(c): return None
    if k == 'by_ref': return c.ret(c.args[0])
    if k in ('write_all', 'write'):
        sl = as_slice(c.I, c.st, c.args[1])
        b = c.st.copy()
        if k == 'write':
            n = lv(fresh('nwr', 64, False))
            if sl is not None: c.st.F.assume_ge(lsub(sllen(sl), n))
            c.I.event(c.st, k, 'Ok', (None, n, sl), None, c.args[0]); c.I.event(b, k, 'Err', (None, None, sl), None, c.args[0])
        else: c.I.event(c.st, k, 'Ok', (sl,), None, c.args[0]); c.I.event(b, k, 'Err', (sl,), None, c.args[0])
        if k == 'write_all': return [(c.st, okunit(c)), (b, err(c, b))]
        return [(c.st, c.en('Ok', ('i', n, 64, False))), (b, err(c, b))]
    if k == 'flush':
        b = c.st.copy()
        c.I.event(c.st, 'flush', 'Ok', ()); c.I.event(b, 'flush', 'Err', ())
        return [(c.st, okunit(c)), (b, err(c, b))]
    return None
@pattern(r'(?:std::io::Seek|<.* as std::io::Seek>)::(\w+)$')
def m_seek(c, m):
    k = m.group(1)
    b = c.st.copy()
    t = c.fieldty('Ok')
    a = c.args[1] if len(c.args) > 1 else None
    if c.I.P.types[t]['k'] == 'int': r = ('i', lv(fresh('pos', 64, False)), 64, False)
    else: r = ('agg', t, ())
    if k == 'seek' and a is not None and a[0] == 'top': c.I.discr(c.st, a, a[1], None)
    if k == 'seek' and a is not None and a[0] == 'en':
        T = c.I.P.types[a[1]]
        if T['variants'][a[2]]['name'] == 'Start' and a[3][0][0] == 'i': r = a[3][0]
    c.I.event(c.st, k if k != 'seek' else 'seek', 'Ok', (a,), r, c.args[0]); c.I.event(b, k, 'Err', (a,), None, c.args[0])
    return [(c.st, c.en('Ok', r)), (b, err(c, b))]

# ---------------------------------------------------------------- C strings
@pattern(r'(?:std|core)::(?:slice|array)::from_(?:ref|mut)$')
def m_fromref(c, m):
    """a slice of the single value behind a reference"""
    if 'mut' in c.inst.defn or 'array' in c.inst.defn: return None
    t = c.I.P.types[c.argty(0)]['to']
    o = c.I.newobj(); c.st.mem[o] = ('seq', t, lc(1), c.I.freshtag(), ((ZERO, c.load(0)),), None)
    return c.ret(('sl', o, (), ZERO, lc(1), 's'))
@pattern(r'(?:std::ffi::CStr|core::ffi::CStr|core::ffi::c_str::CStr)::(as_ptr|from_ptr|to_bytes|to_bytes_with_nul|from_bytes_with_nul|from_bytes_with_nul_unchecked|from_bytes_until_nul|to_str)$')
def m_cstr(c, m):
    k = m.group(1); v = c.args[0]
    if k == 'as_ptr':
        return c.ret(('cptr', 'cstr', v))
    if k == 'from_ptr':
        h = c.I.collect.get('cstr_from_ptr')
        if h: h(c, v)
        return c.ret(c.top('cs'))
    if k == 'from_bytes_with_nul_unchecked':
        sl = as_slice(c.I, c.st, v)
        c.I.ob(c.st, 'ub', False, k)
        return c.ret(c.top('cs'))
    return c.ret(c.top('cs'))

# ---------------------------------------------------------------- SIMD
@model('std::arch::x86_64::_mm_loadu_si128', 'std::arch::x86_64::_mm_load_si128', 'std::arch::x86_64::_mm_lddqu_si128')
def m_loadu(c):
    v = c.args[0]
    if v[0] == 'sl': v = ('ep', v[1], v[2], v[3], v[4])
    F = c.st.F
    if v[0] == 'p':
        w = c.I.read(c.st, v[1], v[2])
        if w[0] == 'seq': v = ('ep', v[1], v[2], ZERO, w[2])
    if v[0] != 'ep':
        c.I.ob(c.st, 'ub', False, 'wide load'); return c.ret(c.top('simd'))
    end = v[4]
    if end is None:
        w = c.I.read(c.st, v[1], v[2]); end = w[2] if w[0] == 'seq' else None
    c.I.ob(c.st, 'ub', end is not None and F.prove_ge(laddc(lsub(end, v[3]), -16)), 'wide load')
    q = c.I.read(c.st, v[1], v[2])
    if q[0] != 'seq': return c.ret(c.top('simd'))
    return c.ret(('simd', tuple(c.I.elem(c.st, q, laddc(v[3], i)) for i in range(16))))
@model('std::arch::x86_64::_mm_movemask_epi8')
def m_movemask(c):
    v = c.args[0]
    if v[0] != 'simd': return c.ret(c.top('mm'))
    bs = []
    for e in v[1]:
        b, x = c.st.F.bits(e[1]); bs.append(b[7] if len(b) > 7 else x)
    return c.ret(('i', c.st.F.from_bits(bs, 0), 32, True))

# ---------------------------------------------------------------- formatting is opaque
@pattern(r'(core::fmt::|std::fmt::|alloc::fmt::|std::io::_print|std::io::_eprint|<.* as std::fmt::\w+>::fmt|core::fmt::\w+::<impl .*>::fmt|std::io::stdio::|std::hash::|<.* as std::hash::Hash>)')
def m_fmt(c, m):
    if c.inst.user or c.dty is None: return None
    return c.ret(c.top('fmt'))
@pattern(r'std::clone::impls::<impl std::clone::Clone for [iu]\w+>::clone$|<(bool|char|f64|[iu]\d+) as std::clone::Clone>::clone$')
def m_intclone(c, m): return c.ret(c.load(0))
@model('<T as std::convert::Into<U>>::into', '<T as std::convert::From<T>>::from')
def m_identity(c):
    if len(c.args) == 1 and c.argty(0) == c.dty: return c.ret(c.args[0])
    return None
