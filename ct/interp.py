"""Abstract interpreter over monomorphised MIR."""
from dom import *
import prog as PR

PRELUDE = {'std::prelude::v1::' + v: 'std::%s::%s' % (t, v) for t, v in (('option::Option', 'Some'), ('option::Option', 'None'), ('result::Result', 'Ok'), ('result::Result', 'Err'))}
class Fork(Exception):
    def __init__(s, states): s.states = states
class Undecided(Exception): pass

class Frame:
    __slots__ = ('id', 'inst', 'bb', 'si', 'dest', 'target', 'aux')
    def __init__(s, id, inst, dest, target):
        s.id = id; s.inst = inst; s.bb = 0; s.si = 0; s.dest = dest; s.target = target; s.aux = None
    def copy(s):
        f = Frame.__new__(Frame)
        f.id = s.id; f.inst = s.inst; f.bb = s.bb; f.si = s.si; f.dest = s.dest; f.target = s.target; f.aux = s.aux
        return f

class State:
    __slots__ = ('mem', 'F', 'frames', 'mon', 'ch', 'trace', 'skip', 'unroll', 'tags')
    def __init__(s):
        s.mem = {}; s.F = Facts(); s.frames = []; s.mon = {}; s.ch = {}; s.trace = None; s.skip = False; s.unroll = {}; s.tags = frozenset()
    def copy(s):
        t = State.__new__(State)
        t.mem = dict(s.mem); t.F = s.F.copy(); t.frames = [f.copy() for f in s.frames]; t.mon = dict(s.mon); t.ch = dict(s.ch)
        t.trace = s.trace; t.skip = s.skip; t.unroll = dict(s.unroll); t.tags = s.tags
        return t
    def note(s, x): s.trace = (s.trace, x)
    def notes(s):
        r = []; t = s.trace
        while t: r.append(t[1]); t = t[0]
        return r[::-1]

U = ('uninit',)

UNCHECKED = {}
import re
UNCH_RX = re.compile(r'unchecked|::set_len$|ptr::write|ptr::read|from_raw|_mm_|from_ptr|transmute|::zeroed|assume_init|ptr::.*::(add|sub|offset)$')
class Part:
    pass

class Interp:
    MAXSTEPS = 3_000_000
    def __init__(s, prog, hook=None, monitors=(), unroll=0, maxdepth=40):
        s.P = prog; s.hook = hook; s.monitors = list(monitors); s.unroll = unroll; s.maxdepth = maxdepth
        s.quiet = 0; s.nfid = 0; s.nobj = 0; s.nev = 0
        s.exits = []; s.obs = {}; s.fails = {}; s.steps = 0; s.paths = 0
        s.opaque = {}; s.inlined = set(); s.loopinfo = {}
        s.on_loop = None     # callback(st0, key) at loop entry; s.on_back(st) at back edges
        s.on_back = None
        s.on_write = None    # callback(I, st, obj, path, val) for every memory write outside an event
        s.inevent = 0
        s.on_agg = None      # callback(I, st, type, values) for every struct construction
        s.recursion = None   # callback(interp, st, call) for re-entered instances
        s.kill_loops = False
        s.forkelem = None    # element type -> callback: accesses of recorded elements at an undecided index split the state
        s.witconst = None
        s.athead = [f for f in (getattr(m, 'athead', None) for m in s.monitors) if f]     # (I, st, back) whenever a state arrives at a loop head
        s.atret = [f for f in (getattr(m, 'ret', None) for m in s.monitors) if f]         # (I, st, function, value) when an inlined call returns
        s.collect = {}       # free space for checks
        import models
        s.modelfn = models.find; s.Call = models.Call
        s.split = None
        s.maxexits = 200000; s.maxparts = 300; s.peel = {'ct_harness::models::extend_vec': 2, 'models::extend_vec': 2}

    # ------------------------------------------------------------------ values
    def newobj(s):
        s.nobj += 1
        return ('h', s.nobj)
    def freshtag(s):
        s.nobj += 1
        return ('fresh', s.nobj)
    def origin(s, what='ev'):
        s.nev += 1
        return (what, s.nev)
    def elemsize(s, t): return s.P.types[t].get('size', 1) or 0
    def mk_top(s, t, origin):
        T = s.P.types[t]; k = T['k']
        if k == 'int':
            y = keyed(('o', origin), T['bits'], T['signed'], name=origin)
            if origin[0] == 'el': ELEM[y] = (t, origin[1], origin[2])
            return ('i', lv(y), T['bits'], T['signed'])
        if k == 'bool': return ('b', 1 << atom(('o', origin)))
        if k == 'char': return ('i', lv(keyed(('o', origin), 32, False, 0, 0x10FFFF, name=origin)), 32, False)
        if k == 'float': return ('f64', ('o', origin))
        if k == 'fndef': return ('fn', t)
        if k == 'array':
            return ('seq', T['elem'], lc(T['len'] or 0), ('o', origin), (), None)
        if k in ('tuple', 'closure'):
            if not s.P.fields(t): return ('agg', t, ())
            return ('top', t, origin)
        if k in ('ref', 'ptr'):
            E = s.P.types[T['to']]
            if E['k'] in ('slice', 'str'):
                et = E['elem'] if E['k'] == 'slice' else s.P.u8()
                return ('sl', ('obj', origin + ('*',), 'seq', et), (), ZERO, s.seqlen(origin + ('*',), et), 'str' if E['k'] == 'str' else 's')
            if E['k'] in ('dyn', 'foreign', 'fnptr'): return ('top', t, origin)
            return ('p', ('obj', origin + ('*',), 'val', T['to']), ())
        if k == 'adt':
            n = T['name']
            if n.endswith('vec::Vec') or n.endswith('string::String'):
                et = T['args'][0] if n.endswith('Vec') else s.P.u8()
                o = ('obj', origin + ('buf',), 'seq', et)
                l = s.seqlen(origin + ('buf',), et)
                return ('vec', o, l, l)
            if n in ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter'):
                et = next((x for x in T['args'] if isinstance(x, int)), None)
                if et is not None:
                    return ('vit' if n.endswith('IntoIter') else 'it', ('obj', origin + ('*',), 'seq', et), (), ZERO, s.seqlen(origin + ('*',), et))
            if n.endswith('boxed::Box') or n.endswith('rc::Rc') or n.endswith('sync::Arc'):
                it = T['args'][0]; I = s.P.types[it]
                if I['k'] in ('str', 'slice'):
                    et = I['elem'] if I['k'] == 'slice' else s.P.u8()
                    return ('bsl', ('sl', ('obj', origin + ('*',), 'seq', et), (), ZERO, s.seqlen(origin + ('*',), et), 'str' if I['k'] == 'str' else 's'))
                if I['k'] == 'dyn': return ('top', t, origin)
                return ('box', ('obj', origin + ('*',), 'val', it))
            if T['kind'] == 'struct' and not s.P.fields(t): return ('agg', t, ())
            return ('top', t, origin)
        return ('top', t, origin)
    def seqlen(s, origin, et):
        sz = s.elemsize(et)
        return lv(keyed(('len', origin), 64, False, 0, ((1 << 63) - 1) // sz if sz else (1 << 64) - 1, name=('len',) + origin))
    def getobj(s, st, o):
        v = st.mem.get(o)
        if v is not None: return v
        if o[0] == 'obj':
            if o[2] == 'val': return s.mk_top(o[3], o[1])
            return ('seq', o[3], s.seqlen(o[1], o[3]), ('o', o[1]), (), None)
        if o[0] == 'c': return s.P.consts[o[1]]
        return U
    def force(s, st, v):
        """resolve a top enum whose variant was already chosen"""
        if v[0] == 'top':
            c = st.ch.get(v[2])
            if c is not None: return s.variant(v, c)
        return v
    def variant(s, v, k):
        fs = s.P.fields(v[1], k)
        return ('en', v[1], k, tuple(s.mk_top(f, v[2] + (('v', k, i),)) for i, f in enumerate(fs)))
    def sub(s, st, v, step):
        k = step[0]
        if v[0] == 'top' and k != 'i': v = s.force(st, v)
        if k == 'f':
            if v[0] == 'agg' or v[0] == 'en':
                fs = v[2] if v[0] == 'agg' else v[3]
                if step[1] < len(fs): return fs[step[1]]
                return U
            if v[0] == 'top':
                if v[1] is not None:
                    fs = s.P.fields(v[1])
                    if step[1] < len(fs): return s.mk_top(fs[step[1]], v[2] + (('f', step[1]),))
                return U
            if v[0] in ('box', 'bsl', 'p', 'sl', 'ep'): return v
            return U
        if k == 'd':
            if v[0] == 'top': return s.variant(v, step[1])
            return v
        if k == 'i':
            if v[0] == 'seq': return s.elem(st, v, step[1])
            return U
        return U
    def elem(s, st, q, lin):
        F = st.F
        n = F.norm(lin)
        may = False
        fe = s.forkelem.get(q[1]) if s.forkelem and q[4] else None
        for l, v in reversed(q[4]):
            d = lsub(l, n)
            if F.prove_eq(d):
                if fe: fe(s, st, True)
                return v
            if not F.prove_ne(d):
                if fe and not may:
                    a = st.copy(); b = st.copy()
                    raise Fork([x for x, ok in ((a, a.F.assume_eq(d)), (b, b.F.assume_ne(d))) if ok])
                may = True
        if may:
            return s.mk_top(q[1], s.origin('may'))
        return s.elemtag(st, q[1], q[3], n)
    def elemtag(s, st, et, tag, n):
        if tag[0] == 'sub':
            return s.elemtag(st, et, tag[1], st.F.norm(ladd(tag[2], n)))
        if tag[0] == 'const':
            c = st.F.const(n)
            if c is not None and 0 <= c < len(tag[1]): return ('i', lc(tag[1][c]), 8, False)
            return s.mk_top(et, s.origin('cel'))
        if tag[0] == 'fill': return tag[1]
        c = st.F.const(n)
        if c is not None: n = lc(c)
        return s.mk_top(et, ('el', tag, n))
    def setelem(s, st, q, lin, val):
        F = st.F
        n = F.norm(lin)
        keep = []; drop = False
        for l, v in q[4]:
            if F.prove_eq(l, n): continue
            if F.prove_ne(l, n): keep.append((l, v))
            else: drop = True
        tag = s.freshtag() if drop else q[3]
        init = q[5]
        if init is not None and F.prove_eq(init, n): init = F.norm(laddc(n, 1))
        return ('seq', q[1], q[2], tag, tuple(keep) + ((n, val),), init)
    def read(s, st, obj, path):
        v = s.getobj(st, obj)
        for step in path: v = s.sub(st, v, step)
        return s.force(st, v) if v[0] == 'top' else v
    def write(s, st, obj, path, val):
        if s.on_write is not None and not s.inevent and not s.quiet: s.on_write(s, st, obj, path, val)
        if not path:
            st.mem[obj] = val; return
        base = s.getobj(st, obj)
        st.mem[obj] = s._upd(st, base, path, 0, val, obj)
    def _upd(s, st, v, path, i, val, obj):
        if i == len(path): return val
        step = path[i]; k = step[0]
        if v[0] == 'top':
            v = s.force(st, v)
            if v[0] == 'top' and v[1] is not None:
                T = s.P.types[v[1]]
                if k == 'f': v = ('agg', v[1], tuple(s.mk_top(f, v[2] + (('f', j),)) for j, f in enumerate(s.P.fields(v[1]))))
                elif k == 'd': v = s.variant(v, step[1])
        if v[0] == 'uninit' and k in ('f', 'd') and obj[0] == 'l':
            t = s.typeof(st, obj, path[:i])
            if t is not None:
                if k == 'f': v = ('agg', t, tuple(U for _ in s.P.fields(t)))
                else: v = ('en', t, step[1], tuple(U for _ in s.P.fields(t, step[1])))
        if k == 'f':
            if v[0] == 'agg' and step[1] < len(v[2]):
                fs = list(v[2]); fs[step[1]] = s._upd(st, fs[step[1]], path, i + 1, val, obj)
                return ('agg', v[1], tuple(fs))
            if v[0] == 'en' and step[1] < len(v[3]):
                fs = list(v[3]); fs[step[1]] = s._upd(st, fs[step[1]], path, i + 1, val, obj)
                return ('en', v[1], v[2], tuple(fs))
            return v if v[0] in ('box', 'bsl') else U
        if k == 'd': return s._upd(st, v, path, i + 1, val, obj)
        if k == 'i':
            if v[0] == 'seq':
                old = s.elem(st, v, step[1]) if i + 1 < len(path) else None
                return s.setelem(st, v, step[1], s._upd(st, old, path, i + 1, val, obj) if i + 1 < len(path) else val)
            return U
        return U
    def typeof(s, st, obj, path):
        for f in st.frames:
            if f.id == obj[1]:
                t = f.inst.locals[obj[2]]
                var = 0
                for p in path:
                    if p[0] == 'd': var = p[1]
                    elif p[0] == 'f':
                        fs = s.P.fields(t, var)
                        if p[1] >= len(fs): return None
                        t = fs[p[1]]; var = 0
                    else:
                        t = s.P.types[t].get('elem')
                        if t is None: return None
                return t
        return None
    def deref(s, st, v):
        """-> (obj, path, win)"""
        k = v[0]
        if k == 'p': return v[1], v[2], None
        if k == 'sl': return v[1], v[2], (v[3], v[4], v[5])
        if k == 'box': return v[1], (), None
        if k == 'bsl': return s.deref(st, v[1])
        if k == 'ep': return v[1], v[2] + (('i', v[3]),), None
        if k == 'top' and v[1] is not None:
            T = s.P.types[v[1]]
            if T['k'] in ('ref', 'ptr'): return ('obj', v[2] + ('*',), 'val', T['to']), (), None
        o = ('unk', s.nobj); s.nobj += 1
        return o, (), None
    def seqlen_at(s, st, obj, path):
        v = s.read(st, obj, path)
        return v[2] if v[0] == 'seq' else None
    def place(s, st, fr, pl):
        if isinstance(pl, int): return ('l', fr.id, pl), (), None
        obj, path, win = ('l', fr.id, pl[0]), (), None
        for e in pl[1:]:
            if e == '*':
                v = s.read(st, obj, path)
                if win is not None: v = U
                obj, path, win = s.deref(st, v)
            elif e == 'o': pass
            else:
                k = e[0]
                if k == 'f':
                    if path == () and win is None or True:
                        v = s.read(st, obj, path) if win is None else None
                        if v is not None and v[0] in ('box', 'bsl'): continue
                    path = path + (('f', e[1]),)
                elif k == 'd': path = path + (('d', e[1]),)
                elif k == 'i':
                    iv = s.read(st, ('l', fr.id, e[1]), ())
                    l = iv[1] if iv[0] == 'i' else lv(fresh('idx'))
                    path = path + (('i', ladd(win[0], l) if win else l),); win = None
                elif k == 'c':
                    if win: path = path + (('i', laddc(win[1], -e[1]) if e[3] else laddc(win[0], e[1])),)
                    else:
                        n = s.seqlen_at(st, obj, path)
                        path = path + (('i', laddc(n, -e[1]) if e[3] and n else lc(e[1])),)
                    win = None
                elif k == 's':
                    if win: win = (laddc(win[0], e[1]), laddc(win[1], -e[2]) if e[3] else laddc(win[0], e[2]), win[2])
                    else:
                        n = s.seqlen_at(st, obj, path) or ZERO
                        win = (lc(e[1]), laddc(n, -e[2]) if e[3] else lc(e[2]), 's')
        return obj, path, win
    def place_ty(s, fr, pl):
        if isinstance(pl, int): return fr.inst.locals[pl]
        t = fr.inst.locals[pl[0]]; var = 0
        for e in pl[1:]:
            if e == '*':
                T = s.P.types[t]
                t = T.get('to') if T['k'] in ('ref', 'ptr') else (T['args'][0] if T['k'] == 'adt' else None)
            elif e == 'o': pass
            elif e[0] == 'f': t = e[2]
            elif e[0] in ('i', 'c'): t = s.P.types[t].get('elem') if t is not None else None
            if t is None: return None
        return t
    def op_ty(s, fr, o):
        if 'k' in o: return o['k']['ty']
        return s.place_ty(fr, o.get('c', o.get('m')))
    def operand(s, st, fr, o):
        if 'k' in o: return s.P.konst(o['k'])
        if 'rt' in o: return ('b', 1)
        pl = o.get('c', o.get('m'))
        if isinstance(pl, int):
            v = st.mem.get(('l', fr.id, pl), U)
            if v[0] == 'top': v = s.force(st, v)
        else:
            obj, path, win = s.place(st, fr, pl)
            if win is not None: return ('sl', obj, path, win[0], win[1], win[2])
            v = s.read(st, obj, path)
        if v[0] == 'uninit':
            t = s.op_ty(fr, o)
            if t is not None: v = s.mk_top(t, s.origin('un'))
        return v
    # ------------------------------------------------------------------ integers
    def asint(s, st, v):
        """Lin of an int or bool value"""
        if v[0] == 'i': return v[1]
        if v[0] == 'b': return mkbits((st.F.rb(v[1]),), 0)
        return lv(fresh('unk', 64, True))
    def tint(s, t):
        T = s.P.types[t]
        if T['k'] == 'int': return T['bits'], T['signed']
        if T['k'] == 'char': return 32, False
        return None
    def wrapfork(s, st, l, w, sg):
        """value of l reduced into the type; forks on the wrap count when undecided"""
        F = st.F
        lo, hi = trange(w, sg)
        l = F.norm(l)
        a, b = F.rng(l)
        if a >= lo and b <= hi: return l
        ge = F.prove_ge(laddc(l, -lo)); le = F.prove_ge(laddc(lneg(l), hi))
        if ge and le: return l
        m = 1 << w
        if a < lo - m or b > hi + m:
            # more than one wrap possible: bit level
            bs, ext = F.bits(l)
            return s.truncbits(F, bs, ext, w, sg)
        outs = []
        for cond in ((laddc(l, -lo), laddc(lneg(l), hi)), (laddc(lneg(l), lo - 1),), (laddc(l, -hi - 1),)):
            t = st.copy()
            if all(t.F.assume_ge(c) for c in cond): outs.append(t)
        if len(outs) == 1:
            st.F = outs[0].F
            F = st.F
            if F.prove_ge(laddc(l, -lo)) and F.prove_ge(laddc(lneg(l), hi)): return l
            if F.prove_ge(laddc(lneg(l), lo - 1)): return laddc(l, m)
            return laddc(l, -m)
        if F.prove_ge(laddc(lneg(l), lo - 1)): return laddc(l, m)
        if F.prove_ge(laddc(l, -hi - 1)): return laddc(l, -m)
        raise Fork(outs)
    def truncbits(s, F, bs, ext, w, sg):
        bs = list(bs[:w]) + [ext] * (w - len(bs))
        if sg: return F.from_bits(bs[:w - 1], bs[w - 1])
        return F.from_bits(bs, 0)
    def binop(s, st, op, a, b, ta, tr=None):
        F = st.F
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a[0] == 'b' and b[0] == 'b' and op in ('Eq', 'Ne'):
                e = F.rb(a[1] ^ b[1])
                return ('b', e ^ 1 if op == 'Eq' else e)
            if a[0] not in 'ib' or b[0] not in 'ib':
                if op in ('Eq', 'Ne') and a == b and a[0] not in ('f64', 'top', 'agg', 'en'): return ('b', 1 if op == 'Eq' else 0)
                return ('b', 1 << atom(('cmp', s.origin())))
            x, y = s.asint(st, a), s.asint(st, b)
            if op == 'Eq': e = F.cond('eq', lsub(x, y))
            elif op == 'Ne': e = F.cond('eq', lsub(x, y)) ^ 1
            elif op == 'Lt': e = F.cond('ge', laddc(lsub(y, x), -1))
            elif op == 'Le': e = F.cond('ge', lsub(y, x))
            elif op == 'Gt': e = F.cond('ge', laddc(lsub(x, y), -1))
            else: e = F.cond('ge', lsub(x, y))
            return ('b', e)
        if a[0] == 'b' and b[0] == 'b':
            x, y = F.rb(a[1]), F.rb(b[1])
            if op == 'BitAnd': return ('b', band(x, y))
            if op == 'BitOr': return ('b', bor(x, y))
            if op == 'BitXor': return ('b', x ^ y)
        if op == 'Offset':
            if a[0] == 'ep' and b[0] == 'i': return ('ep', a[1], a[2], ladd(a[3], b[1]), a[4])
            return U
        if op == 'Cmp':
            x, y = s.asint(st, a), s.asint(st, b)
            for v, c in ((0, laddc(lsub(y, x), -1)), (2, laddc(lsub(x, y), -1))):
                if F.prove_ge(c): return ('en', tr, v, ())
            if F.prove_eq(x, y): return ('en', tr, 1, ())
            outs = []
            for v in range(3):
                t = st.copy()
                ok = t.F.assume_ge(laddc(lsub(y, x), -1)) if v == 0 else t.F.assume_eq(lsub(x, y)) if v == 1 else t.F.assume_ge(laddc(lsub(x, y), -1))
                if ok: outs.append(t)
            raise Fork(outs)
        if a[0] not in 'ib' or b[0] not in 'ib':
            if tr is not None: return s.mk_top(tr, s.origin('op'))
            return U
        w, sg = (a[2], a[3]) if a[0] == 'i' else (s.tint(ta) or (64, False))
        x, y = s.asint(st, a), s.asint(st, b)
        return ('i', s.arith(st, op, x, y, w, sg), w, sg)
    def arith(s, st, op, x, y, w, sg):
        F = st.F
        if op in ('Add', 'AddUnchecked'): return s.wrapfork(st, ladd(x, y), w, sg)
        if op in ('Sub', 'SubUnchecked'): return s.wrapfork(st, lsub(x, y), w, sg)
        if op in ('Mul', 'MulUnchecked'):
            cx, cy = F.const(x), F.const(y)
            if cy is not None: return s.wrapfork(st, lscale(x, cy), w, sg)
            if cx is not None: return s.wrapfork(st, lscale(y, cx), w, sg)
            return lv(keyed(('mul', F.norm(x), F.norm(y)), w, sg))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                for p, q in ((x, y), (y, x)):
                    c = F.const(q)
                    if c is not None and c >= 0 and (c & (c + 1)) == 0:
                        lo, hi = F.rng(F.norm(p))
                        if lo >= 0 and hi <= c: return F.norm(p)
            a, ae = F.bits(x); b, be = F.bits(y)
            n = max(len(a), len(b))
            f = band if op == 'BitAnd' else bor if op == 'BitOr' else (lambda p, q: p ^ q)
            r = [f(a[i] if i < len(a) else ae, b[i] if i < len(b) else be) for i in range(n)]
            return F.from_bits(r, f(ae, be))
        if s.witconst is not None and op[:3] in ('Shl', 'Shr') and F.const(y) is None:
            # a shift by an unknown amount, seen from one distinguished bit
            d = laddc(F.norm(y), -s.witconst); lo, hi = F.rng(d)
            if lo <= 0 <= hi and not F.prove_ne(d):
                a = st.copy(); b = st.copy()
                raise Fork([x for x, ok in ((a, a.F.assume_eq(d)), (b, b.F.assume_ne(d))) if ok])
        if op in ('Shl', 'ShlUnchecked'):
            k = F.const(y)
            if k is not None:
                k &= w - 1
                l = lscale(F.norm(x), 1 << k)
                lo, hi = F.rng(l); a, b = trange(w, sg)
                if lo >= a and hi <= b: return l
                bs, ext = F.bits(x)
                return s.truncbits(F, [0] * k + list(bs), ext, w, sg)
            cx = F.const(x)
            if cx == 1 and not sg:
                n = F.norm(y); lo, hi = F.rng(n)
                if 0 <= lo and hi < w:
                    r = []
                    for i in range(w):
                        r.append(F.cond('eq', laddc(n, -i)) if lo <= i <= hi else 0)
                    return F.from_bits(r, 0)
            return lv(keyed(('shl', F.norm(x), F.norm(y)), w, sg))
        if op in ('Shr', 'ShrUnchecked'):
            k = F.const(y)
            if k is not None:
                k &= w - 1
                bs, ext = F.bits(x)
                return F.from_bits(bs[k:], ext)
            lo, hi = F.rng(F.norm(x))
            return lv(keyed(('shr', F.norm(x), F.norm(y)), w, sg, 0 if lo >= 0 else None, max(hi, 0) if lo >= 0 else None))
        if op in ('Div', 'Rem'):
            c = F.const(y); x = F.norm(x)
            lo, hi = F.rng(x)
            if c is not None and c > 0 and lo >= 0:
                if lo == hi: return lc(lo // c if op == 'Div' else lo % c)
                if c & (c - 1) == 0:
                    k = c.bit_length() - 1; bs, ext = F.bits(x)
                    return F.from_bits(bs[k:], ext) if op == 'Div' else F.from_bits(bs[:k], 0)
                q = keyed(('div', x, c), w, sg, 0, hi // c)
                F.assume_ge(lsub(x, lscale(lv(q), c))); F.assume_ge(laddc(lsub(lscale(lv(q), c), x), c - 1))
                return lv(q) if op == 'Div' else F.norm(lsub(x, lscale(lv(q), c)))
            if op == 'Rem' and lo >= 0: return lv(keyed(('rem', x, F.norm(y)), w, sg, 0, hi))
            return lv(keyed((op, x, F.norm(y)), w, sg))
        return lv(fresh(op, w, sg))
    def cast(s, st, kind, v, t, ft):
        T = s.P.types[t]; F = st.F
        if T['k'] == 'int' and v[0] in 'ib':
            w, sg = T['bits'], T['signed']
            l = s.asint(st, v)
            lo, hi = F.rng(F.norm(l)); a, b = trange(w, sg)
            if lo >= a and hi <= b: return ('i', F.norm(l), w, sg)
            if F.prove_ge(laddc(l, -a)) and F.prove_ge(laddc(lneg(l), b)): return ('i', F.norm(l), w, sg)
            bs, ext = F.bits(l)
            return ('i', s.truncbits(F, bs, ext, w, sg), w, sg)
        if T['k'] == 'char' and v[0] == 'i': return ('i', v[1], 32, False)
        if T['k'] == 'bool' and v[0] == 'b': return v
        if 'Transmute' in kind:
            if T['k'] == 'int' and v[0] == 'f64': return ('i', s.f64bits(v), 64, False)
            if T['k'] == 'int' and v[0] == 'seq':
                n = F.const(v[2])
                return s.int_from_bytes(st, [s.elem(st, v, lc(i)) for i in range(n)], T['bits'], T['signed'])
            if T['k'] == 'array' and v[0] == 'i':
                return s.int_to_bytes(st, v, T['elem'], T['len'])
            if T['k'] == 'float' and v[0] == 'i': return s.f64from(st, v[1])
            if v[0] in ('p', 'sl', 'box', 'bsl', 'ep', 'vec', 'f64', 'top', 'agg', 'en', 'seq'):
                if v[0] in ('agg',) and T['k'] in ('ptr', 'ref') and len(v[2]) == 1: return s.cast(st, kind, v[2][0], t, None)
                if v[0] == 'top': return s.mk_top(t, v[2] + ('as', t))
                return v
            return s.mk_top(t, s.origin('tr'))
        if v[0] in ('p', 'sl', 'box', 'bsl', 'ep', 'fn', 'top'):
            if 'Unsize' in kind:
                E = s.P.types[T['to']] if T['k'] in ('ref', 'ptr') else None
                if E is not None and E['k'] == 'slice' and v[0] == 'p':
                    q = s.read(st, v[1], v[2])
                    if q[0] == 'seq': return ('sl', v[1], v[2], ZERO, q[2], 's')
                if E is not None and E['k'] == 'dyn': return v
                if v[0] == 'box': 
                    q = s.read(st, v[1], ())
                    if q[0] == 'seq': return ('bsl', ('sl', v[1], (), ZERO, q[2], 's'))
                return v
            if T['k'] in ('ref', 'ptr'):
                E = s.P.types[T['to']]
                if v[0] == 'sl' and E['k'] not in ('slice', 'str', 'dyn'): return ('ep', v[1], v[2], v[3], v[4])
                if v[0] == 'sl' and E['k'] in ('slice', 'str'): return v[:5] + ('str' if E['k'] == 'str' else 's',)
                return v
            if T['k'] == 'int': return s.mk_top(t, s.origin('addr'))
            if T['k'] == 'fnptr': return v
            return v
        if T['k'] == 'int' or T['k'] == 'float': return s.mk_top(t, s.origin('cast'))
        return v if v[0] != 'uninit' else s.mk_top(t, s.origin('cast'))
    def f64bits(s, v):
        k = v[1]
        if isinstance(k, tuple) and k[0] == 'bits': return k[1]
        return lv(keyed(('f64bits', k), 64, False))
    def f64from(s, st, lin):
        lin = st.F.norm(lin)
        if len(lin[1]) == 1 and lin[0] == 0 and lin[1][0][1] == 1:
            n = SYMS[lin[1][0][0]].name
            for k, v in ():
                pass
            for (kk, w, sg), sid in (() if not isinstance(n, tuple) else ((( n, 64, False), lin[1][0][0]),)):
                if kk[0] == 'f64bits': return ('f64', kk[1])
        return ('f64', ('bits', lin))
    def int_from_bytes(s, st, bytes_, w, sg):
        bs = []
        for v in bytes_:
            if v[0] != 'i': return ('i', lv(fresh('bytes', w, sg)), w, sg)
            b, e = st.F.bits(v[1]); b = list(b[:8]); b += [0] * (8 - len(b)); bs += b
        return ('i', s.truncbits(st.F, bs, 0, w, sg), w, sg)
    def int_to_bytes(s, st, v, et, n):
        b, e = st.F.bits(v[1]); b = list(b) + [e] * (8 * n - len(b))
        return ('seq', et, lc(n), ('none',), tuple((lc(i), ('i', st.F.from_bits(b[8 * i:8 * i + 8], 0), 8, False)) for i in range(n)), None)
    # ------------------------------------------------------------------ rvalues
    def rvalue(s, st, fr, r, dty):
        k = r[0]
        if k == 'use': return s.operand(st, fr, r[1])
        if k == 'ref' or k == 'addr':
            obj, path, win = s.place(st, fr, r[2])
            if win is not None: return ('sl', obj, path, win[0], win[1], win[2])
            if path and path[-1][0] == 'i' and k == 'addr':
                return ('ep', obj, path[:-1], path[-1][1], None)
            return ('p', obj, path)
        if k == 'agg':
            kk = r[1]
            vs = tuple(s.operand(st, fr, o) for o in r[2])
            if kk[0] == 'array': return ('seq', kk[1], lc(len(vs)), ('none',), tuple((lc(i), v) for i, v in enumerate(vs)), None)
            if kk[0] == 'tuple': return ('agg', dty, vs)
            if kk[0] == 'adt':
                T = s.P.types[kk[1]]
                if T['kind'] == 'enum': return ('en', kk[1], kk[2], vs)
                if T['kind'] == 'union': return s.mk_top(kk[1], s.origin('un'))
                if s.on_agg and not s.quiet: s.on_agg(s, st, T, vs)
                return ('agg', kk[1], vs)
            if kk[0] == 'closure': return ('agg', kk[1], vs)
            if kk[0] == 'rawptr':
                p, m = vs
                if p[0] == 'ep' and m[0] == 'i': return ('sl', p[1], p[2], p[3], ladd(p[3], m[1]), 's')
                if p[0] == 'p' and m[0] == 'agg': return p
                return p
            return s.mk_top(dty, s.origin('agg'))
        if k == 'bin':
            return s.binop(st, r[1], s.operand(st, fr, r[2]), s.operand(st, fr, r[3]), s.op_ty(fr, r[2]), dty)
        if k == 'cbin':
            a, b = s.operand(st, fr, r[2]), s.operand(st, fr, r[3])
            w, sg = s.tint(s.op_ty(fr, r[2])) or (64, False)
            if a[0] != 'i' or b[0] != 'i': return ('agg', dty, (('i', lv(fresh('unk', w, sg)), w, sg), ('b', 1 << atom(('ovf', s.origin())))))
            F = st.F; lo, hi = trange(w, sg)
            op = r[1]
            if op == 'Add': l = ladd(a[1], b[1])
            elif op == 'Sub': l = lsub(a[1], b[1])
            else:
                cx, cy = F.const(a[1]), F.const(b[1])
                if cy is not None: l = lscale(a[1], cy)
                elif cx is not None: l = lscale(b[1], cx)
                else:
                    ra, rb_ = F.rng(F.norm(a[1])), F.rng(F.norm(b[1]))
                    ps = [x * y for x in ra for y in rb_]
                    l = lv(keyed(('mul', F.norm(a[1]), F.norm(b[1])), 2 * w, True, min(ps), max(ps)))
            l = F.norm(l)
            c1 = F.cond('ge', laddc(l, -lo)); c2 = F.cond('ge', laddc(lneg(l), hi))
            return ('agg', dty, (('i', l, w, sg), ('b', band(c1, c2) ^ 1)))
        if k == 'cast':
            v = s.operand(st, fr, r[2])
            return s.cast(st, r[1], v, r[3], s.op_ty(fr, r[2]))
        if k == 'discr':
            obj, path, win = s.place(st, fr, r[1])
            v = s.read(st, obj, path)
            t = s.place_ty(fr, r[1])
            if v[0] == 'uninit' and t is not None:
                v = s.mk_top(t, s.origin('un'))
                s.write(st, obj, path, v)
                if s.read(st, obj, path)[0] == 'uninit': raise Undecided('discriminant of an unknown place')
            return s.discr(st, v, t, dty)
        if k == 'len':
            obj, path, win = s.place(st, fr, r[1])
            if win: return ('i', lsub(win[1], win[0]), 64, False)
            v = s.read(st, obj, path)
            return ('i', v[2] if v[0] == 'seq' else lv(fresh('len')), 64, False)
        if k == 'un':
            v = s.operand(st, fr, r[2])
            if r[1] == 'Not':
                if v[0] == 'b': return ('b', st.F.rb(v[1]) ^ 1)
                if v[0] == 'i': return ('i', laddc(lneg(v[1]), -1) if v[3] else laddc(lneg(v[1]), (1 << v[2]) - 1), v[2], v[3])
            if r[1] == 'Neg' and v[0] == 'i': return ('i', s.wrapfork(st, lneg(v[1]), v[2], v[3]), v[2], v[3])
            if r[1] == 'PtrMetadata':
                if v[0] == 'bsl': v = v[1]
                if v[0] == 'sl': return ('i', st.F.norm(lsub(v[4], v[3])), 64, False)
                if s.P.types[dty]['k'] == 'tuple': return ('agg', dty, ())
            return s.mk_top(dty, s.origin('un'))
        if k == 'repeat':
            v = s.operand(st, fr, r[1])
            T = s.P.types[dty]
            n = r[2] if r[2] is not None else 0
            if n <= 64: return ('seq', T['elem'], lc(n), ('none',), tuple((lc(i), v) for i in range(n)), None)
            return ('seq', T['elem'], lc(n), ('fill', v), (), None)
        return s.mk_top(dty, s.origin('rv')) if dty is not None else U
    def inhabited(s, t, depth=0):
        T = s.P.types[t]
        if T['k'] == 'never': return False
        if depth > 3: return True
        if T['k'] == 'adt' and T['kind'] == 'enum': return any(all(s.inhabited(f[1], depth + 1) for f in v['fields']) for v in T['variants'])
        return True
    def discr(s, st, v, t, dty):
        w, sg = (s.tint(dty) or (64, True)) if dty is not None else (64, True)
        if v[0] == 'uninit': v = s.mk_top(t, s.origin('un')) if t is not None else v
        if v[0] == 'en':
            d = s.P.types[v[1]]['variants'][v[2]]['discr']
            if sg and d >> (w - 1) & 1: d -= 1 << w
            return ('i', lc(d), w, sg)
        if v[0] == 'top' and v[1] is not None:
            T = s.P.types[v[1]]
            if T['k'] == 'adt' and T['kind'] == 'enum':
                outs = []
                for i, x in enumerate(T['variants']):
                    if not all(s.inhabited(f[1]) for f in x['fields']): continue
                    n = st.copy(); n.ch[v[2]] = i; outs.append(n)
                raise Fork(outs)
        if v[0] == 'agg': return ('i', ZERO, w, sg)
        return ('i', lv(fresh('discr', w, sg)), w, sg)
    # ------------------------------------------------------------------ obligations
    def where(s, st):
        for f in reversed(st.frames):
            if f.inst.user and 'models' not in f.inst.defn: return f
        return st.frames[0]
    def ob(s, st, kind, ok, detail=''):
        """one obligation instance; returns ok"""
        if s.quiet: return ok
        f = s.where(st); g = st.frames[-1]
        key = (kind, f.inst.defn, detail)
        sk = (kind, f.inst.defn, f.bb, g.inst.defn if g is not f else '', g.bb, detail)
        c = s.obs.setdefault(sk, [0, 0])
        c[0] += 1
        if not ok:
            c[1] += 1
            if key not in s.fails:
                sp = f.inst.blocks[f.bb]['sp']
                s.fails[key] = {'at': '%s:%s' % (sp[0], sp[1]), 'fn': f.inst.name, 'std': g.inst.name if g is not f else None,
                                'stack': [x.inst.name + ' @%s' % x.inst.blocks[x.bb]['sp'][1] for x in st.frames], 'trace': [str(x) for x in st.notes()][-25:]}
        return ok
    # ------------------------------------------------------------------ events
    def event(s, st, name, outcome, args=(), ret=None, extra=None):
        st.note((name, outcome) if not extra else (name, outcome, extra))
        for m in s.monitors: m.event(s, st, name, outcome, args, ret, extra)
    def alloc(s, st, what, n, et):
        """memory for n elements of type et is requested (n None: amortised growth by one element)"""
        for m in s.monitors:
            f = getattr(m, 'alloc', None)
            if f: f(s, st, what, n, et)
    def report(s, st, kind, detail=''):
        s.ob(st, kind, False, detail)
    # ------------------------------------------------------------------ calls
    def push(s, st, inst, args, dest, target):
        s.nfid += 1
        fr = Frame(s.nfid, inst, dest, target)
        if len(args) != inst.argc:
            # rust-call: the last argument is a tuple that the body takes apart
            if args and len(args) - 1 + s.tuplen(st, args[-1]) == inst.argc:
                last = args[-1]
                args = list(args[:-1]) + [s.sub(st, last, ('f', i)) for i in range(inst.argc - len(args) + 1)]
        elif inst.spread is not None and False:
            pass
        for i, v in enumerate(args): st.mem[('l', fr.id, i + 1)] = v
        st.frames.append(fr)
        s.inlined.add(inst.id)
    def tuplen(s, st, v):
        if v[0] in ('agg', 'top') and v[1] is not None: return len(s.P.fields(v[1]))
        return 0
    def finish(s, st, dest, target, val):
        """store a call's result and continue"""
        if dest is not None: s.write(st, dest[0], dest[1], val)
        fr = st.frames[-1]
        if target is None: return False
        return True
    def havoc(s, st, v, t):
        """an opaque callee may write through a mutable pointer"""
        if t is None: return
        T = s.P.types[t]
        if T['k'] in ('ref', 'ptr') and T['mut']:
            if v[0] == 'p': s.write(st, v[1], v[2], s.mk_top(T['to'], s.origin('hv')))
            elif v[0] == 'sl':
                q = s.read(st, v[1], v[2])
                if q[0] == 'seq': s.write(st, v[1], v[2], ('seq', q[1], q[2], s.freshtag(), (), q[5]))
    def clean(s, st, fid):
        for m in s.monitors:
            f = getattr(m, 'leave', None)
            if f: f(s, st, fid)
        for k in [k for k in st.mem if k[0] == 'l' and k[1] == fid]: del st.mem[k]
    # ------------------------------------------------------------------ main loop
    def run(s, inst, args, st=None):
        """analyse inst from the given argument values; exits are collected in s.exits"""
        st = st or State()
        s.push(st, inst, args, None, None)
        s.explore([st], None)
        return s.exits
    def explore(s, work, loop):
        """run states until they leave; loop = (fid, depth, head, body) or None. Returns (backs, outs)."""
        backs = []; outs = []
        while work:
            st = work.pop()
            while True:
                r = s.step(st, loop)
                k = r[0]
                if k == 'cont': continue
                if k == 'fork':
                    ls = r[1]
                    if not ls: break
                    s.paths += len(ls) - 1
                    for x in ls[1:]: work.append(x)
                    st = ls[0]
                    continue
                if k == 'back': backs.append(st); break
                if k == 'out': outs.append(st); break
                if k == 'head':
                    work.extend(s.analyze_loop(st)); break
                if k == 'exit':
                    if not s.quiet:
                        s.exits.append((st, r[1]))
                        if len(s.exits) > s.maxexits: raise Undecided('too many exits')
                    else: s.qexits = getattr(s, 'qexits', 0) + 1
                    break
                if k == 'stop': break
                raise Exception(k)
        return backs, outs
    def jump(s, st, fr, target, loop):
        fr.bb = target; fr.si = 0
        if s.athead and target in s.P.loops(fr.inst):
            for f in s.athead: f(s, st, loop is not None and fr.id == loop[0] and target == loop[2])
        if loop is not None:
            if len(st.frames) < loop[1]: return ('out',)
            if fr.id == loop[0]:
                if target == loop[2]: return ('back',)
                if target not in loop[3]: return ('out',)
        if target in s.P.loops(fr.inst):
            lim = s.unroll or s.peel.get(fr.inst.defn, 0)
            if lim:
                k = (fr.id, target)
                n = st.unroll.get(k, 0)
                if n < lim:
                    st.unroll[k] = n + 1
                    return ('cont',)
                if s.kill_loops:
                    if not s.quiet: s.collect['unroll_exhausted'] = s.collect.get('unroll_exhausted', 0) + 1
                    return ('stop',)
            n = s.fewleft(st, fr, target)
            if n is not None:
                k = (fr.id, target, 'left'); old, tot = st.unroll.get(k, (None, 0))
                if (old is None or n != old) and tot < 64:
                    st.unroll[k] = (n, tot + 1)
                    return ('cont',)
            return ('head',)
        return ('cont',)
    def fewleft(s, st, fr, target):
        """number of elements left in an iterator over a small constant range that is live at a loop head"""
        live = s.P.live(fr.inst)[target]; F = st.F
        def left(v, d):
            if v[0] in ('it', 'vit'):
                c = F.const(lsub(v[-1], v[-2])); return c if c is not None and 0 <= c <= 8 else None
            if v[0] != 'agg' or d > 4 or v[1] is None: return None
            n = s.P.types[v[1]].get('name', '')
            if n.endswith('IndexRange') or n.endswith('ops::Range'):
                a, b = v[2][0], v[2][1]
                if a[0] != 'i' or b[0] != 'i': return None
                c = F.const(lsub(b[1], a[1])); return c if c is not None and 0 <= c <= 8 else None
            for x in v[2]:
                r = left(x, d + 1)
                if r is not None: return r
        out = []
        for k in range(len(fr.inst.locals)):
            if not (live >> k) & 1: continue
            v = st.mem.get(('l', fr.id, k))
            if v is None: continue
            r = left(v, 0)
            if r is not None: out.append(r)
        return tuple(out) or None
    def step(s, st, loop):
        s.steps += 1
        if s.steps > s.MAXSTEPS: raise Undecided('step budget exhausted')
        fr = st.frames[-1]
        if fr.bb < 0: return s.jump(st, fr, -1 - fr.bb, loop)
        b = fr.inst.blocks[fr.bb]
        sts = b['st']; n = len(sts)
        P = s.P
        try:
            while fr.si < n:
                x = sts[fr.si]; k = x[0]
                if k == '=':
                    pl = x[1]
                    if isinstance(pl, int):
                        v = s.rvalue(st, fr, x[2], fr.inst.locals[pl])
                        st.mem[('l', fr.id, pl)] = v
                    else:
                        v = s.rvalue(st, fr, x[2], s.place_ty(fr, pl))
                        obj, path, win = s.place(st, fr, pl)
                        if win is None: s.write(st, obj, path, v)
                elif k == 'live': st.mem.pop(('l', fr.id, x[1]), None)
                elif k == 'dead': st.mem.pop(('l', fr.id, x[1]), None)
                elif k == 'assume':
                    v = s.operand(st, fr, x[1])
                    if v[0] == 'b':
                        if fr.inst.user: s.ob(st, 'ub', st.F.rb(v[1]) == 1, 'assume')
                        if not st.F.assume_bit(v[1], 1): return ('stop',)
                elif k == 'sd':
                    obj, path, win = s.place(st, fr, x[1])
                    v = s.read(st, obj, path)
                    t = s.place_ty(fr, x[1])
                    if not (v[0] == 'en' and v[2] == x[2]):
                        s.write(st, obj, path, ('en', t, x[2], tuple(U for _ in P.fields(t, x[2]))))
                if st.F.dead: return ('stop',)
                fr.si += 1
            t = b['t']; k = t[0]
            if k == 'goto': return s.jump(st, fr, t[1], loop)
            if k == 'drop': return s.jump(st, fr, t[2], loop)
            if k == 'switch': return s.switch(st, fr, t, loop)
            if k == 'ret':
                val = st.mem.get(('l', fr.id, 0), U)
                if val[0] == 'uninit': val = s.mk_top(fr.inst.locals[0], s.origin('ret'))
                elif val[0] == 'top': val = s.force(st, val)
                if len(st.frames) == 1:
                    for m in s.monitors: m.exit(s, st, val)
                    return ('exit', val)
                dest, target = fr.dest, fr.target
                for f in s.atret: f(s, st, fr.inst, val)
                st.frames.pop()
                s.clean(st, fr.id)
                cf = st.frames[-1]
                if fr.aux is not None:
                    val = fr.aux(s, st, val)
                    if val is None: return ('stop',)
                s.write(st, dest[0], dest[1], val)
                if target is None: return ('stop',)
                return s.jump(st, cf, target, loop)
            if k == 'assert':
                v = s.operand(st, fr, t[1])
                if v[0] == 'b':
                    e = st.F.rb(v[1])
                    want = 1 if t[2] else 0
                    ok = e == want
                    s.ob(st, 'panic', ok, 'assert ' + t[3])
                    if not ok and not st.F.assume_bit(e, want): return ('stop',)
                else: s.ob(st, 'panic', False, 'assert ' + t[3])
                return s.jump(st, fr, t[4], loop)
            if k == 'unreachable':
                s.ob(st, 'ub', False, 'unreachable')
                return ('stop',)
            if k == 'call': return s.call(st, fr, t[1], loop)
            return ('stop',)
        except Fork as f:
            return ('fork', [x for x in f.states if not x.F.dead])
    def switch(s, st, fr, t, loop):
        v = s.operand(st, fr, t[1])
        brs = t[2]; other = t[3]
        F = st.F
        if v[0] == 'b':
            e = F.rb(v[1])
            m = {int(x): b for x, b in brs}
            if e in (0, 1): return s.jump(st, fr, m.get(e, other), loop)
            outs = []
            for val in (0, 1):
                n = st.copy()
                if n.F.assume_bit(e, val): outs.append((n, m.get(val, other)))
            return s.multi(outs, loop)
        if v[0] != 'i':
            l = lv(fresh('sw', 64, True)); w, sg = 64, True
        else: l = v[1]; w, sg = v[2], v[3]
        l = F.norm(l)
        outs = []; rest = st; alive = True
        for x, b in brs:
            c = int(x)
            if sg and c >> (w - 1) & 1: c -= 1 << w
            d = laddc(l, -c)
            if rest.F.prove_ne(d): continue
            if rest.F.prove_eq(d):
                outs.append((rest, b)); alive = False; break
            n = rest.copy()
            if n.F.assume_eq(d): outs.append((n, b))
            if rest is st: rest = st.copy()
            if not rest.F.assume_ne(d): alive = False; break
        if alive and not rest.F.dead: outs.append((rest, other))
        return s.multi(outs, loop)
    def multi(s, outs, loop):
        """several (state, target): perform the jumps; states that stop at a loop event are re-queued through a marker"""
        if len(outs) == 1:
            st, b = outs[0]
            if b == 'same': return ('cont',)
        res = []
        for st, b in outs:
            st.frames[-1].bb = -1 - b   # pending jump, resolved on the next step
            res.append(st)
        return ('fork', res)
    def call(s, st, fr, x, loop):
        P = s.P
        k = x.get('model', x.get('inst'))
        args = [s.operand(st, fr, o) for o in x['args']]
        dobj, dpath, dwin = s.place(st, fr, x['dest'])
        target = x['target']
        dty = s.place_ty(fr, x['dest'])
        if k is None:
            inst = None
            fv = s.operand(st, fr, x['func'])
            if fv[0] == 'fn':
                kk = P.types[fv[1]].get('inst')
                if kk is not None: inst = P.insts[kk]
        else: inst = P.insts[k]
        res = s.docall(st, fr, inst, args, (dobj, dpath), target, dty, x)
        if res == 'pushed': return ('cont',)
        outs = []
        for n, val in res:
            if n.F.dead: continue
            if target is None:
                continue
            s.write(n, dobj, dpath, val)
            outs.append((n, target))
        if len(outs) == 1 and outs[0][0] is st:
            return s.jump(st, st.frames[-1], target, loop)
        return s.multi(outs, loop) if outs else ('stop',)
    def docall(s, st, fr, inst, args, dest, target, dty, x):
        """list of (state, value) or 'pushed'"""
        if inst is None:
            return s.opaquecall(st, fr, None, args, dty, x)
        if fr.inst.user and not s.quiet:
            z = UNCHECKED.get(inst.id)
            if z is None: z = UNCHECKED[inst.id] = bool(UNCH_RX.search(inst.defn)) and not inst.user
            if z: s.ob(st, 'ub', True, 'reached ' + inst.defn)
        if s.hook:
            r = s.hook(s, st, inst, args, dty, x)
            if r is not None: return r
        m = s.modelfn(inst)
        if m is not None:
            c = s.Call(s, st, fr, inst, args, dty, x, dest, target)
            r = m(c)
            if r is not None: return r
        if target is None and not (inst.user and inst.body):
            n = inst.defn
            s.ob(st, 'panic', False, n)
            return []
        if inst.body:
            if any(f.inst is inst for f in st.frames):
                if s.recursion:
                    r = s.recursion(s, st, inst, args, dty, x)
                    if r is not None: return r
                else:
                    return s.opaquecall(st, fr, inst, args, dty, x)
            if len(st.frames) > s.maxdepth: return s.opaquecall(st, fr, inst, args, dty, x)
            if len(args) == 2 and x.get('name', '').split('::')[-1] in ('call', 'call_mut', 'call_once') and '{closure' in inst.defn.split('::')[-1]:
                # rust-call: the last argument is a tuple that the body takes apart
                last = args[1]
                args = [args[0]] + [s.sub(st, last, ('f', i)) for i in range(s.tuplen(st, last))]
            s.push(st, inst, args, dest, target)
            if 0 in P_loops(s.P, inst): pass
            return 'pushed'
        if len(args) == 2 and inst.defn.split('::')[-1] in ('call', 'call_mut', 'call_once') and inst.defn.startswith('std::ops::'):
            # a function item used as a closure
            f = args[0]
            if f[0] == 'p': f = s.read(st, f[1], f[2])
            if f[0] == 'fn' and s.P.types[f[1]].get('inst') is not None:
                k = s.P.insts[s.P.types[f[1]]['inst']]
                return s.docall(st, fr, k, [s.sub(st, args[1], ('f', i)) for i in range(s.tuplen(st, args[1]))], dest, target, dty, x)
        v = s.ctor(inst, args, dty)
        if v is not None: return [(st, v)]
        return s.opaquecall(st, fr, inst, args, dty, x)
    def ctor(s, inst, args, dty):
        """a tuple struct or variant used as a function"""
        T = s.P.types[dty]
        if T['k'] != 'adt' or T['kind'] == 'union': return None
        import re
        d = re.sub(r'::<[^<>]*>', '', inst.defn)
        d = PRELUDE.get(d, d)
        if T['kind'] == 'struct': 
            if d == T['name'] and len(args) == len(s.P.fields(dty)): return ('agg', dty, tuple(args))
            return None
        for i, V in enumerate(T['variants']):
            if d == T['name'] + '::' + V['name'] and len(args) == len(s.P.fields(dty, i)): return ('en', dty, i, tuple(args))
        return None
    def opaquecall(s, st, fr, inst, args, dty, x):
        n = inst.defn if inst else 'indirect call'
        s.opaque[n] = s.opaque.get(n, 0) + 1
        for v, o in zip(args, x['args']): s.havoc(st, v, s.op_ty(fr, o))
        return [(st, s.mk_top(dty, s.origin('op')))]
    # ------------------------------------------------------------------ loops
    def partkey(s, st):
        k = tuple(sorted(st.mon.items(), key=lambda z: z[0]))
        if s.split: k = (k, s.split(s, st))
        return k
    def analyze_loop(s, st0):
        import joins
        return joins.analyze(s, st0)

def P_loops(P, i): return P.loops(i)

