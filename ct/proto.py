"""Cut points: calls of the input/output/protocol traits become events with contract outcomes.

mode 'P' (primitive): only the required methods of the abstract input/output are cut; everything else is inlined.
mode 'Q' (protocol):  every input/output trait method is cut (except the call made by a root itself), and so are
                      fill_thrift/write_thrift of nested containers."""
import re
from dom import *
import interp as IT
from interp import U

IN_RX = re.compile(r"(?:::|<.* as .*::)CompactThriftInput(?:<[^<>]*>)?>?::(\w+)$")
OUT_RX = re.compile(r"(?:::|<.* as .*::)CompactThriftOutput(?:<[^<>]*>)?>?::(\w+)$")
PROTO_RX = re.compile(r"(?:::|<.* as .*::|<impl .*::)CompactThriftProtocol(?:<[^<>]*>)?(?: for .*>)?>?::(\w+)$")
ULEB = {'compact_thrift_runtime::uleb::decode_uleb': ('in', 'varint'), 'compact_thrift_runtime::uleb::encode_uleb': ('out', 'varint')}

_memo = {}
def classify(P, inst):
    """('in'|'out'|'proto', method, self type index) or None"""
    k = (id(P), inst.id)
    r = _memo.get(k, 0)
    if r != 0: return r
    r = None
    d = inst.defn
    for kind, rx in (('in', IN_RX), ('out', OUT_RX), ('proto', PROTO_RX)):
        m = rx.search(d)
        if m and inst.body and '{closure' not in d:
            if kind == 'in' and 'CompactThriftInput' not in d.rsplit('::', 1)[0].split(' for ')[0] : continue
            t = inst.locals[1] if inst.argc >= 1 else None
            if kind == 'proto' and m.group(1) == 'read_thrift':
                t = None
            r = (kind, m.group(1), strip(P, t) if t is not None else None)
            break
    _memo[k] = r
    return r
def strip(P, t):
    T = P.types[t]
    while T['k'] in ('ref', 'ptr'):
        t = T['to']; T = P.types[t]
    return t
def nolife(P, t): return re.sub(r"'\w+(, )?", '', P.types[t]['s'])
def tname(P, t):
    T = P.types[t]
    return T['name'] if T['k'] == 'adt' else T['s']
IN_T = ('AbsIn', 'AnyReader', 'AnyFile', 'CompactThriftInputSlice')
OUT_T = ('AbsOut', 'AnyWriter')

def wcode(P, t):
    """the compact protocol's type codes for a Rust type (the oracle: Thrift compact protocol specification)"""
    T = P.types[t]; k = T['k']
    if k == 'bool': return (1, 2)
    if k == 'int' and T['signed']: return {8: (3,), 16: (4,), 32: (5,), 64: (6,)}[T['bits']]
    if k == 'float': return (7,)
    if k == 'str': return (8,)
    if k == 'slice': return (8,)
    if k in ('ref', 'ptr'): return wcode(P, T['to'])
    if k == 'adt':
        n = T['name']; b = n.split('::')[-1]
        if b in ('String', 'Cow'): return (8,)
        if b == 'Vec':
            E = P.types[T['args'][0]]
            return (8,) if E['k'] == 'int' and E['bits'] == 8 and not E['signed'] else (9,)
        if b in ('Option', 'Box', 'Rc', 'Arc'): return wcode(P, T['args'][0])
        if b == 'EncodingSet': return (9,)
        f = T['variants'][0]['fields'] if T['variants'] else []
        if T['kind'] == 'struct' and len(f) == 1 and f[0][0] == '0' and P.types[f[0][1]]['k'] == 'int': return (5,)
        return (12,)
    return None
def inner(P, t):
    """strip Option / Box / Rc / Arc"""
    T = P.types[t]
    while T['k'] == 'adt' and T['name'].split('::')[-1] in ('Option', 'Box', 'Rc', 'Arc'):
        t = T['args'][0]; T = P.types[t]
    return t
def is_container(P, t):
    T = P.types[t]
    if T['k'] == 'adt' and T['name'].split('::')[-1] in ('Option', 'Box', 'Rc', 'Arc', 'Cow', 'String'): return False
    w = wcode(P, t)
    return w is not None and (w == (9,) or w == (12,))

class Cut:
    def __init__(s, mode, wfield=False, keep=(), ffield=False, elem=None):
        s.mode = mode; s.wfield = wfield; s.ffield = ffield; s.elem = elem; s.keep = set(keep); s.extra = {}
        s.want = None          # callback(I, st, kind, method, selfty, args) -> None or list of result states (specialised outcomes)
    def __call__(s, I, st, inst, args, dty, x):
        P = I.P
        if not inst.user: return None
        c = classify(P, inst)
        if c is None: return None
        kind, m, T = c
        if inst.id in s.keep: return None
        if kind in ('in', 'out'):
            n = tname(P, T).split('::')[-1]
            if n not in (IN_T if kind == 'in' else OUT_T): return None
            if n in ('AbsIn', 'AbsOut') and inst.crate == 'ct_harness': pass
            elif s.mode == 'P': return None
            elif len(st.frames) == 1 and st.frames[0].inst.defn.startswith('ct_harness::roots::'): return None
            return s.emit(I, st, kind, m, T, inst, args, dty, x)
        if s.mode == 'P': return None
        if s.elem is not None and m in ('fill_thrift', 'write_thrift') and (T == s.elem or nolife(P, T) == nolife(P, s.elem)):
            return s.emit(I, st, 'fill' if m == 'fill_thrift' else 'wval', m, T, inst, args, dty, x)
        if s.ffield and m == 'fill_thrift_field':
            return s.emit(I, st, 'ffield', m, T, inst, args, dty, x)
        if m in ('fill_thrift', 'write_thrift') and is_container(P, T):
            return s.emit(I, st, 'fill' if m == 'fill_thrift' else 'wval', m, T, inst, args, dty, x)
        if m == 'write_thrift_field' and s.wfield:
            return s.emit(I, st, 'wfield', m, T, inst, args, dty, x)
        return None
    def emit(s, I, st, kind, m, T, inst, args, dty, x):
        I.inevent += 1
        try: return s.emit1(I, st, kind, m, T, inst, args, dty, x)
        finally: I.inevent -= 1
    def emit1(s, I, st, kind, m, T, inst, args, dty, x):
        P = I.P
        V = P.types[dty]['variants']
        oi = [i for i, v in enumerate(V) if v['name'] == 'Ok'][0]
        ei = 1 - oi
        o = I.origin('e')
        err = st.copy()
        okt = V[oi]['fields'][0][1]
        if kind == 'in': okv = I.mk_top(okt, ('ev', m) + o)
        else: okv = I.mk_top(okt, ('ev',) + o)
        outs = []
        n = st
        if kind == 'in' and m == 'read_field_header' and len(args) > 1:
            ob, pa, _ = I.deref(n, args[1])
            I.lastprev = I.read(n, ob, pa)
            I.write(n, ob, pa, ('i', lv(keyed(('o', ('hid',) + o), 16, True, name=('id',) + o)), 16, True))
            ob, pa, _ = I.deref(err, args[1])
            I.write(err, ob, pa, ('i', lv(keyed(('o', ('hie',) + o), 16, True)), 16, True))
        if kind in ('fill', 'ffield'):
            for z in (n, err):
                ob, pa, _ = I.deref(z, args[0])
                if z is n: I.lastfill = I.read(z, ob, pa)
                I.write(z, ob, pa, I.mk_top(T, ('fl',) + I.origin('f')))
        if kind == 'wfield' and len(args) > 3:
            ob, pa, _ = I.deref(n, args[3])
            I.lastprev = I.read(n, ob, pa)
            for z in (n, err):
                ob, pa, _ = I.deref(z, args[3])
                if z is n and tname(P, T).split('::')[-1] != 'Option': I.write(z, ob, pa, args[2])
                else: I.write(z, ob, pa, ('i', lv(keyed(('o', ('lst',) + I.origin('l')), 16, True)), 16, True))
        if kind == 'in' and tname(P, T).endswith('Slice'):
            for z in (n, err): s.havocself(I, z, args[0], T)
        okst = [(n, okv)]
        if s.want:
            r = s.want(I, n, kind, m, T, args, okv)
            if r is not None: okst = r
        for z, v in okst:
            I.event(z, (kind, m), 'ok', args, v, tname(P, T) if kind in ('fill', 'wval', 'wfield', 'ffield') else None)
            outs.append((z, ('en', dty, oi, (v,))))
        I.event(err, (kind, m), 'err', args, None, tname(P, T) if kind in ('fill', 'wval', 'wfield', 'ffield') else None)
        e = I.mk_top(V[ei]['fields'][0][1], ('everr',) + o)
        err.mem[('g', 'lasterr')] = e
        outs.append((err, ('en', dty, ei, (e,))))
        return [(a, b) for a, b in outs if not a.F.dead]
    def havocself(s, I, st, v, T):
        ob, pa, w = I.deref(st, v)
        I.write(st, ob, pa, I.mk_top(T, I.origin('hv')))

class Failed:
    """C05: nothing happens after a failed event and the result is an error"""
    def __init__(s, bad): s.bad = bad
    def event(s, I, st, name, outcome, args, ret, extra):
        if st.mon.get('failed') and not I.quiet: s.bad(st, 'event %s after a failed operation' % (name,))
        if outcome == 'err': st.mon['failed'] = 1
    def exit(s, I, st, val):
        pass

def isok(I, v):
    if v[0] == 'en': return I.P.types[v[1]]['variants'][v[2]]['name'] in ('Ok', 'Some')
    return None
def errname(I, st, v):
    """variant name of the error value in Err(e)"""
    if v[0] != 'en' or isok(I, v): return None
    e = v[3][0]
    e = I.force(st, e) if e[0] == 'top' else e
    if e[0] == 'en': return I.P.types[e[1]]['variants'][e[2]]['name']
    return '?'
