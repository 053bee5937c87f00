"""Program representation: MIR dump, types, constants, control-flow utilities."""
import json
from dom import *

USER = ('compact_thrift_runtime', 'compact_thrift_parquet', 'ct_harness', 'ct_schema')

class Inst:
    __slots__ = ('id', 'name', 'defn', 'crate', 'args', 'kind', 'intrinsic', 'span', 'body', 'blocks', 'locals', 'argc', 'spread', 'names', '_loops', '_live', 'user')

class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.types = d['types']; s.roots = d['roots']; s.impls = d['impls']; s.inherent = d.get('inherent', [])
        s.insts = []
        for k, x in enumerate(d['insts']):
            i = Inst(); i.id = k; i.name = x['name']; i.defn = x['def']; i.crate = x['crate']; i.args = x['args']; i.kind = x['kind']
            i.intrinsic = x.get('intrinsic'); i.span = x['span']; b = x.get('body'); i.body = b; i._loops = None; i._live = None
            i.user = i.crate in USER
            if b:
                i.blocks = b['blocks']; i.locals = b['locals']; i.argc = b['argc']; i.spread = b['spread']; i.names = b['names']
            s.insts.append(i)
        s.consts = []      # constant objects
        s._constkey = {}
        s._zst = {}
        s.byname = {}
        for i in s.insts: s.byname.setdefault(i.name, []).append(i)
    def ty(s, t): return s.types[t]
    def tname(s, t): return s.types[t]['s']
    def root(s, label):
        for r in s.roots:
            if r[0] == label: return s.insts[r[1]]
        raise KeyError(label)
    def adt(s, t, suffix):
        T = s.types[t]
        return T['k'] == 'adt' and T['name'].endswith(suffix)
    # ---- constants
    def decode(s, t, al, off=0):
        T = s.types[t]; k = T['k']; by = al['bytes']
        def num(o, n):
            v = by[o:o + n]
            if len(v) < n or any(x is None for x in v): return None
            return int.from_bytes(bytes(v), 'little')
        if k == 'bool':
            return ('b', num(off, 1) or 0)
        if k == 'int':
            n = T['bits'] // 8; v = num(off, n)
            if v is None: return ('uninit',)
            if T['signed'] and v >> (T['bits'] - 1): v -= 1 << T['bits']
            return ('i', lc(v), T['bits'], T['signed'])
        if k == 'char': return ('i', lc(num(off, 4)), 32, False)
        if k == 'float': return ('f64', ('const', num(off, T['size'])))
        if k in ('ref', 'ptr'):
            E = s.types[T['to']]
            p = [x for o, x in al['ptrs'] if o == off]
            if not p or p[0] is None:
                return ('top', t, ('const', str(num(off, 8))))
            x = p[0]
            if 'fn' in x: return ('top', t, ('fnptr', x['fn']))
            m = x.get('mem')
            if m is None or 'static' in x and m.get('mut'): return ('top', t, ('const', json.dumps(x)[:80]))      # a static that can change holds anything
            sub = num(off, 8) or 0
            if E['k'] in ('slice', 'str'):
                ln = num(off + 8, 8)
                et = E['elem'] if E['k'] == 'slice' else s.u8()
                key = (json.dumps(m), et, ln, sub)
                o = s._constkey.get(key)
                if o is None:
                    o = len(s.consts); s._constkey[key] = o
                    s.consts.append(s.seqconst(et, ln, m, sub))
                return ('sl', ('c', o), (), ZERO, lc(ln), 'str' if E['k'] == 'str' else 's')
            if E['k'] == 'dyn': return ('top', t, ('const', json.dumps(x)[:80]))
            key = (json.dumps(m), T['to'], None, sub)
            o = s._constkey.get(key)
            if o is None:
                o = len(s.consts); s._constkey[key] = o
                s.consts.append(None)
                s.consts[o] = s.decode(T['to'], m, sub)
            return ('p', ('c', o), ())
        if k == 'array':
            return s.seqconst(T['elem'], T['len'], al, off)
        if k == 'tuple' or (k == 'adt' and T['kind'] == 'struct') or k == 'closure':
            fs = s.fields(t)
            offs = T.get('offs')
            if not fs: return ('agg', t, ())
            if offs is None or len(offs) != len(fs): return ('top', t, ('const', json.dumps(al)[:200]))
            return ('agg', t, tuple(s.decode(f, al, off + o) for f, o in zip(fs, offs)))
        if k == 'adt' and T['kind'] == 'enum':
            if all(not v['fields'] for v in T['variants']) and T.get('size', 0) in (1, 2, 4, 8):
                v = num(off, T['size'])
                for i, x in enumerate(T['variants']):
                    if x['discr'] & ((1 << (8 * T['size'])) - 1) == v: return ('en', t, i, ())
            if len(T['variants']) == 1 and not T['variants'][0]['fields']: return ('en', t, 0, ())
            if T['name'].endswith('Option') and T.get('size') and len(T['variants'][1]['fields']) == 1:
                it = T['variants'][1]['fields'][0][1]; I = s.types[it]
                if I['k'] in ('ref', 'ptr'):
                    if not [1 for o, x in al['ptrs'] if o == off]: return ('en', t, 0, ())
                    return ('en', t, 1, (s.decode(it, al, off),))
            return ('top', t, ('const', json.dumps(al)[:300]))
        if k == 'fndef': return ('fn', t)
        return ('top', t, ('const', json.dumps(al)[:200]))
    def seqconst(s, et, n, al, off):
        E = s.types[et]
        if E['k'] == 'int' and E['bits'] == 8 and not E['signed']:
            by = al['bytes'][off:off + n]
            if len(by) == n and None not in by: return ('seq', et, lc(n), ('const', tuple(by)), (), None)
        sz = E.get('size', 0)
        if n > 512: return ('seq', et, lc(n), ('o', ('const', json.dumps(al)[:100], off)), (), None)
        return ('seq', et, lc(n), ('none',), tuple((lc(i), s.decode(et, al, off + i * sz)) for i in range(n)), None)
    def u8(s):
        for i, t in enumerate(s.types):
            if t and t['k'] == 'int' and t['bits'] == 8 and not t['signed']: return i
    def fields(s, t, variant=0):
        T = s.types[t]; k = T['k']
        if k == 'tuple': return T['elems']
        if k == 'closure': return s.types[T['upvars']]['elems'] if 'upvars' in T else []
        if k == 'adt': return [f[1] for f in T['variants'][variant]['fields']] if T['variants'] else []
        return []
    def konst(s, c):
        t, v = c['ty'], c['v']
        T = s.types[t]
        if v == 'zst':
            if T['k'] == 'fndef': return ('fn', t)
            if T['k'] == 'adt' and T['kind'] == 'enum': return ('en', t, 0, ())
            if T['k'] == 'array': return ('seq', T['elem'], lc(T['len'] or 0), ('none',), (), None)
            fs = s.fields(t)
            return ('agg', t, tuple(s.zst(f) for f in fs))
        if isinstance(v, dict):
            if 'usize' in v: return ('i', lc(v['usize']), 64, False)
            return s.decode(t, v)
        return ('top', t, ('const', str(v)))
    def zst(s, t):
        T = s.types[t]
        if T['k'] == 'fndef': return ('fn', t)
        return ('agg', t, tuple(s.zst(f) for f in s.fields(t)))
    # ---- control flow
    def succs(s, b):
        t = b['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[1]['target']] if t[1]['target'] is not None else []
        if k == 'assert': return [t[4]]
        return []
    def loops(s, i):
        """head -> set of blocks (natural loops, reducible)"""
        if i._loops is not None: return i._loops
        n = len(i.blocks); succ = [s.succs(b) for b in i.blocks]
        # reverse postorder
        order = []; seen = set(); stack = [(0, iter(succ[0]))]; seen.add(0)
        onstack = {0}; back = []
        while stack:
            x, it = stack[-1]
            for y in it:
                if y in onstack: back.append((x, y)); continue
                if y not in seen:
                    seen.add(y); onstack.add(y); stack.append((y, iter(succ[y]))); break
            else:
                stack.pop(); onstack.discard(x); order.append(x)
        pred = {}
        for x in seen:
            for y in succ[x]: pred.setdefault(y, []).append(x)
        loops = {}
        for x, h in back:
            body = loops.setdefault(h, {h})
            work = [x]
            while work:
                y = work.pop()
                if y in body: continue
                body.add(y)
                work += pred.get(y, [])
        i._loops = loops
        return loops
    def live(s, i):
        """block -> bitmask of live-in locals; locals whose address is taken count as live everywhere"""
        if i._live is not None: return i._live
        taken = 0
        use = []; dfn = []
        def pl_uses(p, acc):
            if isinstance(p, int): return acc
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i': acc |= 1 << e[1]
            return acc | 1 << p[0]
        def op_uses(o):
            if 'c' in o or 'm' in o:
                p = o.get('c', o.get('m'))
                return (1 << p) if isinstance(p, int) else pl_uses(p, 0)
            return 0
        for b in i.blocks:
            u = d = 0
            def useit(m):
                nonlocal u
                u |= m & ~d
            def defit(p):
                nonlocal d, u
                if isinstance(p, int): d |= 1 << p
                else: useit(pl_uses(p, 0))
            for st in b['st']:
                if st[0] == '=':
                    r = st[2]; k = r[0]
                    if k in ('ref', 'addr'):
                        p = r[2]
                        if isinstance(p, int): taken |= 1 << p
                        else:
                            if '*' not in p: taken |= 1 << p[0]
                            useit(pl_uses(p, 0))
                    elif k == 'agg':
                        for o in r[2]: useit(op_uses(o))
                    elif k in ('bin', 'cbin'): useit(op_uses(r[2])); useit(op_uses(r[3]))
                    elif k == 'cast': useit(op_uses(r[2]))
                    elif k in ('discr', 'len'):
                        p = r[1]; useit((1 << p) if isinstance(p, int) else pl_uses(p, 0))
                    elif k == 'repeat': useit(op_uses(r[1]))
                    elif k == 'un': useit(op_uses(r[2]))
                    elif k == 'use': useit(op_uses(r[1]))
                    defit(st[1])
                elif st[0] == 'assume': useit(op_uses(st[1]))
                elif st[0] == 'copynonov':
                    for o in st[1:]: useit(op_uses(o))
                elif st[0] in ('live', 'dead'): d |= 1 << st[1]
                elif st[0] == 'sd':
                    p = st[1]; useit((1 << p) if isinstance(p, int) else pl_uses(p, 0))
            t = b['t']; k = t[0]
            if k == 'switch': useit(op_uses(t[1]))
            elif k == 'assert': useit(op_uses(t[1]))
            elif k == 'call':
                x = t[1]
                useit(op_uses(x['func']) if isinstance(x['func'], dict) else 0)
                for o in x['args']: useit(op_uses(o))
                defit(x['dest'])
            elif k == 'ret': useit(1)
            use.append(u); dfn.append(d)
        n = len(i.blocks); live = [0] * n
        succ = [s.succs(b) for b in i.blocks]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = 0
                for y in succ[b]: o |= live[y]
                l = use[b] | (o & ~dfn[b])
                if l != live[b]: live[b] = l; ch = True
        i._live = [x | taken for x in live]
        return i._live
    def callees(s, i):
        if not i.body: return []
        r = []
        for b in i.blocks:
            t = b['t']
            if t[0] == 'call':
                k = t[1].get('model', t[1].get('inst'))
                if k is not None: r.append(k)
        return r
